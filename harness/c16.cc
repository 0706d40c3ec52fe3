// C16: redistribution.  Every process knows the global matrix and the original layout; the new index sets are gathered
// and checked as a whole, every matrix entry and vector component is compared with the global object.
#include "config.h"
#include <dune/common/bigunsignedint.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/repartition.hh>
#include <dune/istl/matrixredistribute.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/dependency.hh>
#include <dune/istl/paamg/properties.hh>
#include "dprob.hh"
#include <dlfcn.h>
using namespace dp; using namespace Dune;
// the graph handed to ParMETIS is checked before it is partitioned: in range, symmetric, without loops and multiple edges
static std::string badGraph;
extern "C" int ParMETIS_V3_PartKway(idx_t* dist, idx_t* xadj, idx_t* adj, idx_t* vw, idx_t* ew, idx_t* wf, idx_t* nf, idx_t* nc, idx_t* np, ::real_t* tp, ::real_t* ub, idx_t* op, idx_t* cut, idx_t* part, MPI_Comm* comm) {
  int P, r; MPI_Comm_size(*comm, &P); MPI_Comm_rank(*comm, &r); int nv = dist[r + 1] - dist[r]; std::vector<idx_t> mine; for (int v = 0; v < nv; ++v) for (idx_t k = xadj[v]; k < xadj[v + 1]; ++k) { mine.push_back(dist[r] + v); mine.push_back(adj[k]); mine.push_back(ew ? ew[k] : 1); } int n = mine.size(); std::vector<int> cnt(P), dis(P + 1, 0); MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, *comm); for (int i = 0; i < P; ++i) dis[i + 1] = dis[i] + cnt[i]; std::vector<idx_t> all(dis[P] + 1); MPI_Allgatherv(mine.data(), n, MPI_INT, all.data(), cnt.data(), dis.data(), MPI_INT, *comm);
  std::map<std::pair<idx_t, idx_t>, idx_t> e; badGraph.clear(); for (int k = 0; k < dis[P]; k += 3) { if (all[k] == all[k + 1]) badGraph += str(" loop ", all[k]); if (all[k + 1] < 0 || all[k + 1] >= dist[P]) badGraph += str(" range ", all[k + 1]); if (!e.emplace(std::make_pair(all[k], all[k + 1]), all[k + 2]).second) badGraph += str(" twice ", all[k], "-", all[k + 1]); } for (auto& x : e) { auto it = e.find({x.first.second, x.first.first}); if (it == e.end()) badGraph += str(" one-way ", x.first.first, "-", x.first.second); else if (it->second != x.second) badGraph += str(" weights ", x.first.first, "-", x.first.second, ":", x.second, "/", it->second); }
  static auto real = reinterpret_cast<decltype(&ParMETIS_V3_PartKway)>(dlsym(RTLD_NEXT, "ParMETIS_V3_PartKway")); if (!badGraph.empty() && getenv("VH_BAD")) { std::fprintf(stderr, "BAD GRAPH%s\n", badGraph.c_str()); } return real(dist, xadj, adj, vw, ew, wf, nf, nc, np, tp, ub, op, cut, part, comm); }
template<class B> struct VB { using type = FieldVector<double, Blk<B>::n>; }; template<> struct VB<double> { using type = double; };
template<class B> static Sp<B> valued(vh::Rng& g, const Pattern& p) { Sp<B> A; A.N = A.M = p.size(); A.p = p; for (size_t i = 0; i < A.N; ++i) for (auto j : p[i]) { B b(0.0); if constexpr (IsNumber<B>::value) b = g.range(-9, 9); else for (size_t r = 0; r < b.N(); ++r) for (size_t s = 0; s < b.M(); ++s) b[r][s] = g.range(-9, 9); A.v[{i, j}] = b; } return A; }
struct NewIdx { std::vector<std::array<long, 4>> e; }; // global, attribute, local, process (in the old communicator)
template<class IS> static std::vector<std::array<long, 4>> gather(const IS& is, const std::map<long, size_t>& dof, int rank, int size) {
  std::vector<long> mine; for (auto& p : is) { long gl; if constexpr (std::is_integral_v<typename IS::GlobalIndex>) gl = p.global(); else gl = long(p.global().todouble()); auto it = dof.find(gl); mine.push_back(it == dof.end() ? -1 - gl : long(it->second)); mine.push_back(p.local().attribute()); mine.push_back(p.local().local()); mine.push_back(rank); }
  int n = mine.size(); std::vector<int> cnt(size), dis(size + 1, 0); MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD); for (int i = 0; i < size; ++i) dis[i + 1] = dis[i] + cnt[i]; std::vector<long> all(dis[size] + 1); MPI_Allgatherv(mine.data(), n, MPI_LONG, all.data(), cnt.data(), dis.data(), MPI_LONG, MPI_COMM_WORLD); std::vector<std::array<long, 4>> r; for (int k = 0; k < dis[size]; k += 4) r.push_back({all[k], all[k + 1], all[k + 2], all[k + 3]}); return r; }
template<class B> static bool same(const B& a, const B& b) { if constexpr (IsNumber<B>::value) return a == b; else { for (size_t i = 0; i < a.N(); ++i) for (size_t j = 0; j < a.M(); ++j) if (a[i][j] != b[i][j]) return false; return true; } }
template<class B, class G> static void redist(mp::Case& c, const char* nm) {
  auto& g = c.rng; int P = c.size; using Mat = BCRSMatrix<B>; using Comm = OwnerOverlapCopyCommunication<G, int>; using VBl = typename VB<B>::type; using V = BlockVector<VBl>; constexpr size_t bs = Blk<B>::n;
  bool nov = g.coin(0.35), comm = g.coin(0.35), full = comm ? g.coin(0.7) : g.coin(0.85), holes = g.coin(0.5), ghosts = true, sympat = g.coin(); Layout d; Sp<B> A, L; std::string pk;
  if (nov) { auto E = elements(g, 26); A = valued<B>(g, E.p); d = nonoverlapping(g, E, P, full, ghosts, holes); L = localNov(A, d, c.rank, 1000); } else { size_t N = g.range(full ? P : 1, 28); Pattern p = symPattern(g, N, &pk); A = valued<B>(g, p); d = overlapping(g, p, P, full, holes, g.coin(0.4)); L = local(A, d, c.rank, sympat); }
  int nparts = g.range(1, P); c.note(str(nm, comm ? " comm" : " graph", " nparts=", nparts, " ", pk, sympat ? " sym " : " ", d.show())); size_t N = A.N; std::map<long, size_t> dof; for (size_t i = 0; i < N; ++i) dof[d.id[i]] = i;
  Comm C(MPI_COMM_WORLD, d.cat); fill(C, d, c.rank); Mat M; vh::Rng lg = c.local(); build(M, L, lg); Mat M0 = M;
  std::map<size_t, size_t> holeOf; // unlisted dofs get new global indices
  RedistributeInformation<Comm> ri; std::shared_ptr<Comm> NC; bool active;
  if (comm) active = commGraphRepartition(M, C, nparts, NC, ri.getInterface()); else { Amg::MatrixGraph<Mat> gr(M); if (g.coin()) active = graphRepartition(gr, C, nparts, NC, ri.getInterface()); else { Amg::PropertiesGraph<Amg::MatrixGraph<Mat>, Amg::VertexProperties, Amg::EdgeProperties, IdentityMap, IdentityMap> pg(gr, IdentityMap(), IdentityMap()); for (auto v = pg.begin(); v != pg.end(); ++v) for (auto e = v.begin(); e != v.end(); ++e) if ((*v * 5 + e.target()) % 3) { e.properties().setDepends(); e.properties().setInfluences(); } active = graphRepartition(pg, C, nparts, NC, ri.getInterface()); } }
  c.check(badGraph.empty(), "graph-for-parmetis", badGraph.substr(0, 300)); badGraph.clear();
  // the original index set: old entries unchanged, holes filled with entries that are private and owned
  std::vector<long> lid(d.n(c.rank), -1); { size_t cnt = 0; for (auto& p : C.indexSet()) { ++cnt; size_t l = p.local().local(); if (!c.check(l < d.n(c.rank), "original-local", str(l))) return; long gl; if constexpr (std::is_integral_v<G>) gl = p.global(); else gl = long(p.global().todouble()); lid[l] = gl; auto& e = d.loc[c.rank][l]; if (e.listed) c.check(gl == d.id[e.g] && p.local().attribute() == e.attr && p.local().isPublic() == e.pub, "original-index-changed", str(l, " ", gl)); else c.check(p.local().attribute() == Owner, "hole-attribute", str(l)); } c.check(cnt == d.n(c.rank), "holes-left", str(cnt, " of ", d.n(c.rank))); }
  { std::vector<long> mine(N, -1), all(N * P); for (size_t l = 0; l < lid.size(); ++l) if (d.loc[c.rank][l].attr == Owner) mine[d.loc[c.rank][l].g] = lid[l]; MPI_Allgather(mine.data(), N, MPI_LONG, all.data(), N, MPI_LONG, MPI_COMM_WORLD); dof.clear(); for (size_t i = 0; i < N; ++i) for (int p = 0; p < P; ++p) if (all[p * N + i] >= 0) if (!c.check(dof.emplace(all[p * N + i], i).second, "global-index-twice", str(all[p * N + i]))) return; }
  // the new index sets
  if (!c.check(bool(NC), "no-communication")) return; auto all = gather(NC->indexSet(), dof, c.rank, P); std::vector<int> owner(N, -1), newranks(P); std::vector<std::map<size_t, std::pair<int, size_t>>> at(P); bool ok = true;
  for (auto& e : all) { ok &= c.check(e[0] >= 0, "unknown-global-index", str(e[0])); if (e[0] < 0) continue; size_t i = e[0]; int p = e[3]; ok &= c.check(at[p].emplace(i, std::make_pair(int(e[1]), size_t(e[2]))).second, "index-twice", str(i, " on ", p)); if (e[1] == Owner) { ok &= c.check(owner[i] < 0, "two-owners", str(i)); owner[i] = p; } else ok &= c.check(e[1] == Copy, "attribute", str(e[1])); }
  for (size_t i = 0; i < N; ++i) ok &= c.check(owner[i] >= 0, "no-owner", str(i)); if (!ok) return;
  std::set<int> parts(owner.begin(), owner.end()); c.check(int(parts.size()) <= nparts, "too-many-parts", str(parts.size(), " > ", nparts)); c.check(active == (parts.count(c.rank) > 0), "return-value", str(active));
  for (int p = 0; p < P; ++p) { std::set<size_t> want, have; std::set<size_t> locs; for (size_t i = 0; i < N; ++i) if (owner[i] == p) for (auto j : A.p[i]) want.insert(j); for (auto& e : at[p]) { have.insert(e.first); locs.insert(e.second.second); } ok &= c.check(have == want, "new-index-set", str("process ", p, ": ", have.size(), " indices instead of ", want.size())); ok &= c.check(locs.size() == have.size() && (locs.empty() || *locs.rbegin() + 1 == locs.size()), "local-indices", str(p)); }
  if (!ok) return; size_t n = at[c.rank].size(); std::vector<size_t> gof(n); for (auto& e : at[c.rank]) gof[e.second.second] = e.first;
  if (active) { c.check(NC->communicator().size() == int(parts.size()), "communicator-size", str(NC->communicator().size())); c.check(NC->category() == d.cat, "category"); }
  // the matrix
  Mat R; redistributeMatrix(M, R, C, *NC, ri); c.ev();
  auto checkMatrix = [&](const char* what) { if (!c.check(R.N() == n && R.M() == n, "matrix-size", str(what, R.N(), "x", R.M(), " instead of ", n))) return; for (size_t i = 0; i < n; ++i) { size_t gi = gof[i]; if (owner[gi] == c.rank) { std::set<size_t> want, have; for (auto j : A.p[gi]) want.insert(j); for (auto j = R[i].begin(); j != R[i].end(); ++j) { size_t gj = gof[j.index()]; have.insert(gj); if (want.count(gj)) c.check(same(*j, A.v.at({gi, gj})), "matrix-entry", str(what, nm, " (", gi, ",", gj, ")")); } c.check(have == want, "row-pattern", str(what, "row ", gi, ": ", have.size(), " entries instead of ", want.size())); } else if (!nov) { bool diag = false; for (auto j = R[i].begin(); j != R[i].end(); ++j) { c.check(same(*j, j.index() == i ? unit<B>() : B(0.0)), "copy-row", str(what, nm, " row ", gi)); diag |= j.index() == i; c.check(R.exists(j.index(), i), "pattern-symmetry"); } c.check(diag, "copy-row-diagonal"); } } };
  checkMatrix(""); for (size_t i = 0; i < M.N(); ++i) { auto a = M[i].begin(); auto b = M0[i].begin(); for (; b != M0[i].end(); ++a, ++b) if (!c.check(a != M[i].end() && a.index() == b.index() && same(*a, *b), "original-matrix", str(i))) break; }
  // vectors, forwards, made consistent, and backwards
  auto val = [&](size_t i, size_t k) { return double(i * 10 + k + 1); }; auto put = [&](V& v, size_t i, size_t gi, double off) { auto&& x = Impl::asVector(v[i]); for (size_t k = 0; k < bs; ++k) x[k] = val(gi, k) + off; };
  auto is = [&](const V& v, size_t i, size_t gi, double off) { auto&& x = Impl::asVector(v[i]); for (size_t k = 0; k < bs; ++k) if (x[k] != val(gi, k) + off) return false; return true; };
  auto vectors = [&](const char* what) { V from(d.n(c.rank)), to(n); for (size_t l = 0; l < from.size(); ++l) put(from, l, d.loc[c.rank][l].g, d.loc[c.rank][l].attr == Owner ? 0 : 0.5); to = -7; V f0 = from; ri.redistribute(from, to); for (size_t i = 0; i < n; ++i) if (owner[gof[i]] == c.rank) c.check(is(to, i, gof[i], 0), "forward", str(what, nm, " ", gof[i])); else c.check(Impl::asVector(to[i])[0] == -7, "forward-touches-copy", str(what, gof[i])); c.check(flatten<double>(f0) == flatten<double>(from), "forward-changes-source", what);
    if (active) { NC->copyOwnerToAll(to, to); for (size_t i = 0; i < n; ++i) c.check(is(to, i, gof[i], 0), "new-communication", str(what, nm, " ", gof[i])); }
    for (size_t i = 0; i < n; ++i) put(to, i, gof[i], owner[gof[i]] == c.rank ? 0.25 : 0.75); from = -7; ri.redistributeBackward(from, to); for (size_t l = 0; l < from.size(); ++l) { auto& e = d.loc[c.rank][l]; if (e.attr == Owner) c.check(is(from, l, e.g, 0.25), "backward", str(what, nm, " ", e.g)); else c.check(Impl::asVector(from[l])[0] == -7, "backward-touches-copy", str(what, e.g)); }
    std::vector<int> a(d.n(c.rank)), b(n, -1); for (size_t l = 0; l < a.size(); ++l) a[l] = d.loc[c.rank][l].g; ri.redistribute(a, b); for (size_t i = 0; i < n; ++i) c.check(b[i] == (owner[gof[i]] == c.rank ? int(gof[i]) : -1), "forward-int", str(what, gof[i])); };
  vectors(""); c.check(!ri.isSetup(), "is-setup"); ri.setSetup(); c.check(ri.isSetup(), "is-setup"); vectors("after setSetup ");
  // a product with the redistributed matrix is one with the global matrix
  if (active) { V x(n), y(n); for (size_t i = 0; i < n; ++i) put(x, i, gof[i], 0); std::vector<double> X(N * bs), Y(N * bs, 0); for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < bs; ++k) X[i * bs + k] = val(i, k); for (auto& e : A.v) { auto&& m = Impl::asMatrix(e.second); for (size_t r = 0; r < bs; ++r) for (size_t s = 0; s < bs; ++s) Y[e.first.first * bs + r] += m[r][s] * X[e.first.second * bs + s]; } if (nov) { NonoverlappingSchwarzOperator<Mat, V, V, Comm> op(R, *NC); op.apply(x, y); } else { OverlappingSchwarzOperator<Mat, V, V, Comm> op(R, *NC); op.apply(x, y); }
    for (size_t i = 0; i < n; ++i) { auto&& t = Impl::asVector(y[i]); for (size_t k = 0; k < bs; ++k) { double w = !nov && owner[gof[i]] != c.rank ? 0 : Y[gof[i] * bs + k]; c.check(t[k] == w, "product", str(nm, nov ? " nonoverlapping" : "", " row ", gof[i], ": ", t[k], " instead of ", w)); } } }
  // new values in the same pattern
  if (!nov && g.coin(0.4)) { for (auto& e : A.v) e.second *= 2; M *= 1; L = local(A, d, c.rank, sympat); setValues(M, L); redistributeMatrixEntries(M, R, C, *NC, ri); checkMatrix("again: "); }
  // once more from the new distribution, and back over both steps
  if (active && g.coin(0.6)) { int n2 = 1 + int(g.next() % NC->communicator().size()); Amg::MatrixGraph<Mat> gr(R); RedistributeInformation<Comm> r2; std::shared_ptr<Comm> N2; Mat Q; bool act = graphRepartition(gr, *NC, n2, N2, r2.getInterface()); redistributeMatrix(R, Q, *NC, *N2, r2); size_t m = N2->indexSet().size(); std::vector<size_t> g2(m, N); std::vector<char> own2(m, 0); int cnt = 0; for (auto& p : N2->indexSet()) { long gl; if constexpr (std::is_integral_v<G>) gl = p.global(); else gl = long(p.global().todouble()); auto it = dof.find(gl); if (!c.check(it != dof.end() && p.local().local() < m, "second-index", str(gl))) return; g2[p.local().local()] = it->second; own2[p.local().local()] = p.local().attribute() == Owner; cnt += p.local().attribute() == Owner; }
    int tot = NC->communicator().sum(cnt); c.check(tot == int(N), "second-owners", str(tot, " of ", N)); c.check(act == (cnt > 0), "second-return-value"); if (c.check(Q.N() == m, "second-size", str(Q.N(), " ", m))) for (size_t i = 0; i < m; ++i) if (own2[i]) { std::set<size_t> have; for (auto j = Q[i].begin(); j != Q[i].end(); ++j) { size_t gj = g2[j.index()]; have.insert(gj); auto it = A.v.find({g2[i], gj}); c.check(it != A.v.end() && same(*j, it->second), "second-entry", str(g2[i], ",", gj)); } c.check(have.size() == A.p[g2[i]].size(), "second-row", str(g2[i], ": ", have.size())); }
    V x(n), y(m), z(n); for (size_t i = 0; i < n; ++i) put(x, i, gof[i], owner[gof[i]] == c.rank ? 0 : 0.5); y = -7; z = -7; r2.redistribute(x, y); for (size_t i = 0; i < m; ++i) if (own2[i]) c.check(is(y, i, g2[i], 0), "second-forward", str(g2[i])); r2.redistributeBackward(z, y); for (size_t i = 0; i < n; ++i) if (owner[gof[i]] == c.rank) c.check(is(z, i, gof[i], 0), "second-backward", str(gof[i])); }
  bool moved = false; for (size_t i = 0; i < N; ++i) moved |= owner[i] != d.owner[i]; if (moved || P == 1) c.sig(str(nm, comm, nparts, d.show()));
}
template<class G> static void any(mp::Case& c) { switch (c.rng.range(0, 3)) { case 0: redist<FieldMatrix<double, 1, 1>, G>(c, "1"); break; case 1: redist<FieldMatrix<double, 2, 2>, G>(c, "2"); break; case 2: redist<double, G>(c, "double"); break; default: redist<FieldMatrix<double, 3, 3>, G>(c, "3"); } }
MGROUP("int-indices", 200, 5000) { any<int>(c); }
MGROUP("long-indices", 100, 2500) { any<long>(c); }
MGROUP("big-indices", 60, 1500) { any<bigunsignedint<56>>(c); }
