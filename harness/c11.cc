// C11: aggregation is a valid partition, graphs are the off-diagonal structure, coarse operators are Galerkin products.
#include "ref.hh"
#include "track.hh"
#include "amgprob.hh"
#include <dune/istl/operators.hh>
#include <dune/istl/paamg/graph.hh>
#include <dune/istl/paamg/aggregates.hh>
#include <dune/istl/paamg/dependency.hh>
#include <dune/istl/paamg/matrixhierarchy.hh>
#include <dune/istl/paamg/transfer.hh>
#include <dune/istl/paamg/pinfo.hh>
#include <dune/istl/paamg/globalaggregates.hh>
using namespace ref; using vh::str;
using Dune::BlockVector; using Dune::FieldVector; using Dune::FieldMatrix; using Dune::BCRSMatrix; namespace Amg = Dune::Amg;

// ---- matrices --------------------------------------------------------------------------------------
struct NormSpec { double (*f)(const double*, int); bool sign; };
template<class N, class B> static double norm(const B& b) {
  constexpr int n = Blk<B>::n; auto at = [&](int r, int c) { if constexpr (Dune::IsNumber<B>::value) return b; else return b[r][c]; };
  if constexpr (std::is_same_v<N, Amg::FirstDiagonal>) return at(0, 0); else if constexpr (std::is_same_v<N, Amg::Diagonal<1>>) return at(1, 1);
  else if constexpr (std::is_same_v<N, Amg::AlwaysOneNorm>) return 1;
  else if constexpr (std::is_same_v<N, Amg::RowSum>) { double m = 0; for (int r = 0; r < n; ++r) { double s = 0; for (int c = 0; c < n; ++c) s += std::abs(at(r, c)); m = std::max(m, s); } return m; }
  else { double s = 0; for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) s += at(r, c) * at(r, c); return std::sqrt(s); }
}
template<class N> constexpr bool keepsSign = N::is_sign_preserving;

// ---- graphs ----------------------------------------------------------------------------------------
template<class G, class GG> static void graphIs(vh::Case& c, const std::string& t, GG& G_, const Pattern& p, const std::vector<bool>& ex) {
  size_t nv = 0, lastv = 0, ne = 0; std::vector<size_t> vs; for (size_t i = 0; i < p.size(); ++i) if (!ex[i]) { ++nv; lastv = i; vs.push_back(i); }
  std::vector<size_t> seen; std::set<std::ptrdiff_t> descr;
  for (auto v = G_.begin(); v != G_.end(); ++v) {
    size_t i = *v; seen.push_back(i); std::vector<size_t> want, got, got2; for (auto j : p[i]) if (j != i && !ex[j]) want.push_back(j); ne += want.size();
    for (auto e = v.begin(); e != v.end(); ++e) { got.push_back(e.target()); c.check(e.source() == i, t + "/source", str("edge ", i, "->", e.target(), " source ", e.source())); if constexpr (requires { std::ptrdiff_t(*e); }) c.check(descr.insert((std::ptrdiff_t)(*e)).second, t + "/edge-descriptor", str("two edges share descriptor ", *e)); }
    for (auto e = G_.beginEdges(i); e != G_.endEdges(i); ++e) { got2.push_back(e.target()); if (got2.size() > p.size()) break; }
    c.check(got == want && got2 == want, t + "/edges", str("vertex ", i, " has ", got.size(), "/", got2.size(), " edges, expected ", want.size()));
  }
  c.check(seen == vs, t + "/vertices", str(seen.size(), " vertices, expected ", vs.size()));
  c.check(G_.noVertices() == nv, t + "/noVertices", str(G_.noVertices(), " expected ", nv)); if (nv) c.check(G_.maxVertex() >= lastv && G_.maxVertex() < p.size(), t + "/maxVertex", str(G_.maxVertex(), " expected at least ", lastv));
}
template<class B> static void graphs(vh::Case& c) {
  auto& g = c.rng; using Mat = BCRSMatrix<B>; size_t N = g.coin(0.03) ? 0 : g.range(1, 14); std::string kind; Pattern p = randPattern(g, N, N, true, &kind);
  auto s = Sp<B>::make(g, N, N, p, [](vh::Rng& r) { return smallNZ<double>(r); }); s.kind = kind; Mat A; build(A, s, g); c.note(s.text()); c.sig(str(kind, " ", N, " nnz", s.v.size(), " b", Blk<B>::n));
  std::vector<bool> none(N, false), ex(N, false); double pe = g.pick({0.0, 0.2, 0.6, 1.0}); for (size_t i = 0; i < N; ++i) ex[i] = g.coin(pe);
  using CG = Amg::MatrixGraph<const Mat>; using MG = Amg::MatrixGraph<Mat>;
  CG cg(A); const CG& ccg = cg; graphIs<CG>(c, "matrixgraph", ccg, p, none); graphIs<CG>(c, "matrixgraph-nonconst", cg, p, none);
  for (auto v = ccg.begin(); v != ccg.end(); ++v) { c.check(v.weight() == s.v[{*v, *v}], "matrixgraph/vertex-weight"); for (auto e = v.begin(); e != v.end(); ++e) c.check(e.weight() == s.v[{*v, e.target()}], "matrixgraph/edge-weight"); }
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (i != j) { auto d = ccg.findEdge(i, j); bool has = p[i].count(j); c.check((d != std::numeric_limits<typename CG::EdgeDescriptor>::max()) == has, "matrixgraph/findEdge", str(i, "->", j)); if (has) for (auto e = ccg.beginEdges(i); e != ccg.endEdges(i); ++e) if (e.target() == j) c.check(*e == d, "matrixgraph/findEdge-descriptor", str(i, "->", j, ": ", d, " vs ", *e)); }
  { MG mg(A); graphIs<MG>(c, "mutable-graph", mg, p, none); for (auto v = mg.begin(); v != mg.end(); ++v) { v.weight() *= 2.0; for (auto e = v.begin(); e != v.end(); ++e) e.weight() *= 3.0; }
    bool ok = true; for (auto& e : s.v) { B w = e.second; w *= e.first.first == e.first.second ? 2.0 : 3.0; if (!(A[e.first.first][e.first.second] == w)) ok = false; } c.check(ok, "mutable-graph/weights-written"); }
  // subgraph of the not excluded vertices
  using SG = Amg::SubGraph<CG, std::vector<bool>>; SG sg(cg, ex); graphIs<SG>(c, "subgraph", sg, p, ex); size_t ne = 0;
  { auto em = sg.getEdgeIndexMap(); std::set<size_t> idx; for (size_t i = 0; i < N; ++i) if (!ex[i]) for (auto j : p[i]) if (j != i && !ex[j]) { ++ne; auto d = sg.findEdge(i, j); if (c.check(d != std::numeric_limits<typename SG::EdgeDescriptor>::max() && d && *d == j, "subgraph/findEdge", str(i, "->", j))) { size_t q = em[d]; c.check(idx.insert(q).second && q < sg.noEdges(), "subgraph/edge-index", str(q, " of ", sg.noEdges())); } } c.check(sg.noEdges() == ne, "subgraph/noEdges", str(sg.noEdges(), " expected ", ne)); }
  // property graphs: properties belong to exactly one vertex/edge
  { using PG = Amg::PropertiesGraph<CG, Amg::VertexProperties, Amg::EdgeProperties>; PG pg(cg); graphIs<PG>(c, "propertiesgraph", pg, p, none); const PG& cpg = pg; graphIs<PG>(c, "propertiesgraph-const", cpg, p, none);
    std::set<size_t> mv; std::set<std::pair<size_t, size_t>> me; for (auto v = pg.begin(); v != pg.end(); ++v) { if (g.coin()) { v.properties().setIsolated(); mv.insert(*v); } for (auto e = v.begin(); e != v.end(); ++e) if (g.coin()) { e.properties().setDepends(); me.insert({*v, e.target()}); } }
    for (size_t i = 0; i < N; ++i) { c.check(cpg.getVertexProperties(i).isolated() == bool(mv.count(i)), "propertiesgraph/vertex-property"); for (auto j : p[i]) if (j != i) c.check(cpg.getEdgeProperties(i, j).depends() == bool(me.count({i, j})) && pg.getEdgeProperties(pg.findEdge(i, j)).depends() == bool(me.count({i, j})), "propertiesgraph/edge-property", str(i, "->", j)); } }
  { using PG = Amg::PropertiesGraph<SG, Amg::VertexProperties, Amg::EdgeProperties, Dune::IdentityMap, typename SG::EdgeIndexMap>; PG pg(sg, Dune::IdentityMap(), sg.getEdgeIndexMap()); graphIs<PG>(c, "propertiesgraph-sub", pg, p, ex);
    std::set<std::pair<size_t, size_t>> me; for (auto v = pg.begin(); v != pg.end(); ++v) for (auto e = v.begin(); e != v.end(); ++e) if (g.coin()) { e.properties().setInfluences(); me.insert({*v, e.target()}); }
    for (auto v = pg.begin(); v != pg.end(); ++v) for (auto e = v.begin(); e != v.end(); ++e) c.check(e.properties().influences() == bool(me.count({*v, e.target()})), "propertiesgraph-sub/edge-property"); }
  { using VG = Amg::VertexPropertiesGraph<CG, Amg::VertexProperties>; VG vg(cg); graphIs<VG>(c, "vertexpropertiesgraph", vg, p, none); std::set<size_t> mv; for (auto v = vg.begin(); v != vg.end(); ++v) if (g.coin()) { v.properties().setFront(); mv.insert(*v); } for (size_t i = 0; i < N; ++i) c.check(vg.getVertexProperties(i).front() == bool(mv.count(i)), "vertexpropertiesgraph/property"); }
}
VGROUP("graphs", 1500, 6000) { if (c.rng.coin()) graphs<FieldMatrix<double, 1, 1>>(c); else if (c.rng.coin()) graphs<FieldMatrix<double, 2, 2>>(c); else graphs<double>(c); }
VGROUP("graph-nonsquare", 30, 200) { using B = FieldMatrix<double, 1, 1>; auto s = Sp<B>::rnd(c.rng, 6); BCRSMatrix<B> A; build(A, s, c.rng); c.note(s.text()); bool thrown = false; try { Amg::MatrixGraph<BCRSMatrix<B>> gr(A); } catch (const Dune::ISTLError&) { thrown = true; } c.check(thrown == (s.N != s.M), "nonsquare-accepted"); }

// ---- aggregation -----------------------------------------------------------------------------------
template<class V> using Map = Amg::AggregatesMap<V>;
// the partition itself: every vertex in one existing, connected aggregate or isolated
template<class M> static bool partition(vh::Case& c, const std::string& t, const M& map, const Pattern& p, const std::vector<char>& mayIsolate, size_t noAgg, size_t skipped, std::vector<std::vector<size_t>>& mem) {
  const auto UN = M::UNAGGREGATED, ISO = M::ISOLATED; size_t n = p.size(), iso = 0; bool ok = c.check(map.noVertices() == n, t + "/noVertices"); mem.assign(noAgg, {});
  for (size_t i = 0; i < n; ++i) { auto a = map[i]; if (a == ISO) { ++iso; ok &= c.check(mayIsolate[i], t + "/isolated-without-reason", str("vertex ", i, " has a strong coupling but was left out")); } else if (!c.check(a != UN && a < noAgg, t + "/unassigned", str("vertex ", i, " -> ", a, " of ", noAgg))) return false; else mem[a].push_back(i); }
  ok &= c.check(iso == skipped, t + "/skipped-count", str(iso, " isolated vertices, reported ", skipped));
  for (size_t a = 0; a < noAgg; ++a) { if (!c.check(!mem[a].empty(), t + "/empty-aggregate", str("aggregate ", a, " of ", noAgg))) { ok = false; continue; } std::set<size_t> in(mem[a].begin(), mem[a].end()), seen{mem[a][0]}; std::vector<size_t> st{mem[a][0]}; while (!st.empty()) { size_t v = st.back(); st.pop_back(); for (auto w : p[v]) if (in.count(w) && seen.insert(w).second) st.push_back(w); } ok &= c.check(seen.size() == in.size(), t + "/disconnected-aggregate", str("aggregate ", a, " with ", in.size(), " vertices reaches ", seen.size())); }
  return ok;
}
enum Crit { Sym, Unsym, SymMat };
// independent strength of connection: the documented thresholds
template<class N, class B> struct Strength {
  std::vector<char> iso, border, near; std::map<std::pair<size_t, size_t>, int> dep, infl; // 1 yes 0 no 2 too close to tell
  Strength(const Sp<B>& s, int crit, double alpha, double beta, bool first) {
    size_t n = s.N; iso.assign(n, 0); border = near = iso; auto nm = [&](size_t i, size_t j) { return norm<N>(s.v.at({i, j})); };
    auto cl = [](double a, double b) { return std::abs(a - b) <= 1e-12 * (std::abs(a) + std::abs(b)); };
    for (auto& e : s.v) dep[e.first] = infl[e.first] = 0;
    for (size_t i = 0; i < n; ++i) {
      double dii = nm(i, i), mx = -std::numeric_limits<double>::max(), off = 0; std::map<size_t, double> q;
      for (auto j : s.p[i]) if (j != i) { for (double f = norm<Amg::FrobeniusNorm>(s.v.at({i, j})); f > off; ) off = f; double eij = nm(i, j), v;
        if (crit == Unsym) { v = -eij; q[j] = v; mx = std::max(mx, v); }
        else if (crit == Sym) { double eji = nm(j, i); if (keepsSign<N> && !(eij < 0 || eji < 0)) continue; v = eij / dii * eji / nm(j, j); q[j] = v; mx = std::max(mx, v); }
        else { v = keepsSign<N> && !(eij < 0) ? 0 : eij / dii * eij / nm(j, j); q[j] = v; if (!keepsSign<N> || eij < 0) mx = std::max(mx, v); } }
      double thr = crit == Unsym ? beta * dii : beta; iso[i] = mx < thr; near[i] = cl(mx, thr); border[i] = first && off == 0;
      if (iso[i]) continue;
      for (auto& e : q) { bool tie = cl(e.second, alpha * mx); bool strong = crit == Unsym ? e.second >= alpha * mx : e.second > alpha * mx; int k = tie ? 2 : strong; if (!k) continue; auto up = [&](int& x) { x = std::max(x, 0) == 1 ? 1 : k; };
        up(dep[{i, e.first}]); if (crit == Unsym) up(infl[{e.first, i}]); else { up(infl[{i, e.first}]); if (crit == Sym) { up(infl[{e.first, i}]); up(dep[{e.first, i}]); } } }
    }
  }
};
template<class N, template<class, class> class Dep, class B> static void aggregation(vh::Case& c, int crit, const std::string& cn) {
  auto& g = c.rng; using Mat = BCRSMatrix<B>; using CG = Amg::MatrixGraph<const Mat>; using PG = Amg::PropertiesGraph<CG, Amg::VertexProperties, Amg::EdgeProperties, Dune::IdentityMap, Dune::IdentityMap>;
  std::string kind, ptxt; auto s = problem<B>(g, g.coin(0.2) ? 12 : 120, false, kind, crit == SymMat); Mat A; build(A, s, g); Amg::AggregationCriterion<Dep<Mat, N>> cr; double alpha, beta; parameters(g, cr, ptxt, alpha, beta); bool first = g.coin();
  { decltype(cr) q; size_t dim = g.range(1, 3), dia = g.range(2, 4), cube = 1; bool an = g.coin(); an ? q.setDefaultValuesAnisotropic(dim, dia) : q.setDefaultValuesIsotropic(dim, dia); for (size_t k = 0; k < dim; ++k) cube *= dia;  // documented: cubes of the given diameter, one side longer when anisotropic
    c.check(q.minAggregateSize() == cube && q.maxAggregateSize() >= cube && q.maxDistance() >= dim * (dia - 1) + (an && dim > 1), "default-values", str("defaults for dim=", dim, " diameter=", dia, an ? " anisotropic" : "", ": min ", q.minAggregateSize(), " max ", q.maxAggregateSize(), " distance ", q.maxDistance())); }
  c.note(str(s.N < 13 ? s.text() : str(kind, " n=", s.N), " ", cn, ptxt, " first=", first)); c.sig(str(kind, s.N, cn, ptxt)); std::string t = cn;
  CG mg(A); PG pg(mg); Map<size_t> map(pg.maxVertex() + 1); size_t noAgg, iso, one, skip; { auto r = map.buildAggregates(A, pg, cr, first); noAgg = std::get<0>(r); iso = std::get<1>(r); one = std::get<2>(r); skip = std::get<3>(r); }
  Strength<N, B> S(s, crit, alpha, beta, first); std::vector<char> may(s.N);
  for (size_t i = 0; i < s.N; ++i) { auto& vp = pg.getVertexProperties(i); if (!S.near[i]) c.check(vp.isolated() == bool(S.iso[i]), t + "/isolation-mark", str("vertex ", i, " marked ", vp.isolated())); c.check(vp.excludedBorder() == bool(S.border[i]), t + "/border-mark", str("vertex ", i)); may[i] = S.border[i] || (cr.skipIsolated() && (S.iso[i] || S.near[i])); }
  bool sharp = true; for (auto& e : s.v) if (e.first.first != e.first.second) { auto& ep = pg.getEdgeProperties(e.first.first, e.first.second); int d = S.dep[e.first], f = S.infl[e.first]; if (d == 2 || f == 2 || S.near[e.first.first]) { sharp = false; continue; } if (S.near[e.first.second]) continue; c.check(ep.depends() == (d == 1) && ep.influences() == (f == 1), t + "/strength", str("edge ", e.first.first, "->", e.first.second, " depends ", ep.depends(), " influences ", ep.influences(), " expected ", d, f)); }
  std::vector<std::vector<size_t>> mem; if (!partition(c, t, map, s.p, may, noAgg, skip, mem)) return;
  size_t onev = 0, isoA = 0; for (auto& m : mem) { onev += m.size() == 1; isoA += pg.getVertexProperties(m[0]).isolated(); } c.check(onev <= one || cr.maxAggregateSize() == 1, t + "/one-vertex-count", str(onev, " one-vertex aggregates, reported ", one)); c.check(iso == isoA, t + "/isolated-count", str("reported ", iso, " isolated aggregates, seen ", isoA));
  // size bounds. The first vertex of an aggregate is its seed; a lone vertex may be merged into an older aggregate.
  auto isIso = [&](size_t v) { return pg.getVertexProperties(v).isolated(); }; auto seed = [&](size_t v) { return mem[map[v]][0]; }; const auto ISO = Map<size_t>::ISOLATED;
  auto strong = [&](size_t v, size_t w) { auto& e = pg.getEdgeProperties(w, v); return e.isTwoWay() || e.isOneWay(); }; // w may join an aggregate containing v
  for (auto& m : mem) {
    std::vector<size_t> own; for (auto v : m) { bool mergeable = v != m[0]; for (auto w : s.p[v]) if (w != v && mergeable && map[w] != ISO && !isIso(w) && strong(v, w) && seed(w) > v) mergeable = false; if (!mergeable) own.push_back(v); }
    size_t grown = own.size(); if (cr.minAggregateSize() < 2) continue; // then lone vertices are merged although they could grow
    if (isIso(m[0])) { c.check(grown <= cr.minAggregateSize(), t + "/isolated-size", str("isolated aggregate of ", m.size(), " vertices, ", grown, " of them not merged late; minimum size ", cr.minAggregateSize())); continue; }
    c.check(grown <= cr.maxAggregateSize(), t + "/too-large", str("aggregate of seed ", m[0], " has ", m.size(), " vertices, ", grown, " of them not merged late; allowed ", cr.maxAggregateSize()));
    if (m.size() < cr.minAggregateSize() && cr.maxDistance() > 0) for (auto v : own) for (auto w : s.p[v]) if (w != v && map[w] != ISO && map[w] != map[v] && !isIso(w) && seed(w) > m[0]) { auto& e = pg.getEdgeProperties(w, v); c.check(!(e.isTwoWay() || e.isOneWay()), t + "/too-small", str("aggregate of seed ", m[0], " has ", m.size(), " < ", cr.minAggregateSize(), " vertices although strongly connected vertex ", w, " was free")); }
  }
}
template<class M, class N> using SymD = Amg::SymmetricDependency<M, N>; template<class M, class N> using UnsymD = Amg::Dependency<M, N>; template<class M, class N> using SymMatD = Amg::SymmetricMatrixDependency<M, N>;
template<class B> static void aggAny(vh::Case& c) {
  switch (c.rng.range(0, 7)) {
    case 0: case 1: aggregation<Amg::FirstDiagonal, SymD, B>(c, Sym, "sym-first"); break; case 2: case 3: aggregation<Amg::FirstDiagonal, UnsymD, B>(c, Unsym, "unsym-first"); break;
    case 4: aggregation<Amg::RowSum, SymD, B>(c, Sym, "sym-rowsum"); break; case 5: aggregation<Amg::FrobeniusNorm, SymD, B>(c, Sym, "sym-frobenius"); break;
    case 6: aggregation<Amg::AlwaysOneNorm, SymD, B>(c, Sym, "sym-one"); break; case 7: aggregation<Amg::FirstDiagonal, SymMatD, B>(c, SymMat, "symmat-first"); break; }
}
VGROUP("aggregation-scalar", 2000, 10000) { aggAny<FieldMatrix<double, 1, 1>>(c); }
VGROUP("aggregation-block", 1000, 5000) { if (c.rng.coin(0.3)) aggregation<Amg::Diagonal<1>, SymD, FieldMatrix<double, 2, 2>>(c, Sym, "sym-diag1"); else aggAny<FieldMatrix<double, 2, 2>>(c); }

// ---- hierarchies -----------------------------------------------------------------------------------
template<class B> static Sp<B> galerkin(const Sp<B>& f, const Map<size_t>& m, size_t nc, std::map<std::pair<size_t, size_t>, double>& mag) {
  Sp<B> s; s.N = s.M = nc; s.p.assign(nc, {}); mag.clear();
  for (size_t i = 0; i < f.N; ++i) if (m[i] != Map<size_t>::ISOLATED) for (auto j : f.p[i]) if (m[j] != Map<size_t>::ISOLATED) { std::pair<size_t, size_t> k{m[i], m[j]}; auto it = s.v.find(k); const B& b = f.v.at({i, j}); if (it == s.v.end()) s.v[k] = b; else it->second += b; s.p[m[i]].insert(m[j]); mag[k] += norm<Amg::FrobeniusNorm>(b); }
  return s;
}
template<class Mat, class B> static std::string sameMatrix(const Mat& A, const Sp<B>& s, const std::map<std::pair<size_t, size_t>, double>& mag) {
  if (A.N() != s.N || A.M() != s.M) return str("size ", A.N(), "x", A.M(), " expected ", s.N); if (A.nonzeroes() != s.v.size()) return str(A.nonzeroes(), " entries, expected ", s.v.size());
  for (auto i = A.begin(); i != A.end(); ++i) for (auto j = i->begin(); j != i->end(); ++j) { auto it = s.v.find({i.index(), j.index()}); if (it == s.v.end()) return str("unexpected entry (", i.index(), ",", j.index(), ")"); B d = *j; d -= it->second; double m = mag.count(it->first) ? mag.at(it->first) : 0; if (!(norm<Amg::FrobeniusNorm>(d) <= 1e-12 * m)) return str("entry (", i.index(), ",", j.index(), ") off by ", norm<Amg::FrobeniusNorm>(d), " of ", m); }
  return "";
}
template<class Mat, class B> static Sp<B> model(const Mat& A) { Sp<B> s; s.N = A.N(); s.M = A.M(); s.p.assign(s.N, {}); for (auto i = A.begin(); i != A.end(); ++i) for (auto j = i->begin(); j != i->end(); ++j) { s.p[i.index()].insert(j.index()); s.v[{i.index(), j.index()}] = *j; } return s; }
template<class B> static void perturb(vh::Rng& g, Sp<B>& s) { for (auto& e : s.v) e.second *= g.real(0.5, 2); }
template<class Crit, class B> static void hierarchy(vh::Case& c, const std::string& cn) {
  auto& g = c.rng; using Mat = BCRSMatrix<B>; constexpr int n = Blk<B>::n; using X = BlockVector<FieldVector<double, n>>; using Op = Dune::MatrixAdapter<Mat, X, X>; using PI = Amg::SequentialInformation; using H = Amg::MatrixHierarchy<Op, PI>; using Flags = Dune::NegateSet<typename PI::OwnerSet>;
  std::string kind, ptxt; auto s = problem<B>(g, g.coin(0.15) ? 10 : 250, false, kind); double a, b; int target = g.pick({0, 1, 2, 5, 20, 60, 1000}), maxl = g.pick({0, 1, 2, 3, 15, 15}); double rate = g.pick({1.0, 1.2, 1.2, 2.0, 4.0}), damp = g.real(1, 2);
  Crit cr{Amg::Parameters(maxl, target, rate, damp)}; parameters(g, cr, ptxt, a, b); std::string t = cn; c.note(str(s.N < 11 ? s.text() : str(kind, " n=", s.N), " ", cn, " target=", target, " maxlevel=", maxl, " rate=", rate, ptxt));
  auto A = std::make_shared<Mat>(); build(*A, s, g); auto op = std::make_shared<Op>(std::shared_ptr<const Mat>(A)); H h(op, std::make_shared<PI>()); c.check(!h.isBuilt(), t + "/built-before-build"); h.template build<Flags>(cr); c.check(h.isBuilt(), t + "/isBuilt");
  size_t L = h.levels(); c.check(L >= 1 && h.maxlevels() == L && L <= size_t(maxl) + 1, t + "/levels", str(L, " levels with maxLevel ", maxl)); c.check(h.aggregatesMaps().size() == L, t + "/maps", str(h.aggregatesMaps().size(), " maps, ", L, " levels")); if (h.aggregatesMaps().size() != L) return;
  c.check(h.getProlongationDampingFactor() == damp, t + "/prolongation-damping", str(h.getProlongationDampingFactor(), " expected ", damp)); c.sig(str(kind, s.N, cn, " levels", L, " t", target, " r", rate, ptxt));
  auto check = [&](const H& hh, const Sp<B>& fine, const std::string& tt) {
    auto m = hh.matrices().finest(); auto am = hh.aggregatesMaps().begin(); Sp<B> cur = fine; std::map<std::pair<size_t, size_t>, double> mag; std::string e; std::vector<Sp<B>> all; std::vector<size_t> comp(fine.N); for (size_t i = 0; i < fine.N; ++i) comp[i] = i;
    for (auto& x : cur.v) mag[x.first] = 0; e = sameMatrix(m->getmat(), cur, mag); c.check(e.empty(), tt + "/finest-modified", e);
    for (size_t l = 0; l + 1 < L; ++l) {
      const auto& map = **am; auto next = m; ++next; size_t nc = next->getmat().N(); std::vector<std::vector<size_t>> mem; std::vector<char> may(cur.N, 1); size_t sk = 0; for (size_t i = 0; i < map.noVertices(); ++i) sk += map[i] == Map<size_t>::ISOLATED;
      c.check(cur.N > size_t(target), tt + "/coarsened-below-target", str("level ", l, " of size ", cur.N, " coarsened with target ", target)); c.check(double(cur.N) / nc >= rate, tt + "/rate", str(cur.N, "/", nc, " < ", rate)); c.check(!cr.skipIsolated() || true, "x");
      if (!partition(c, tt + "/level", map, cur.p, may, nc, sk, mem)) return comp;
      Sp<B> want = galerkin(cur, map, nc, mag); e = sameMatrix(next->getmat(), want, mag); c.check(e.empty(), tt + "/galerkin", str("level ", l + 1, ": ", e)); if (!e.empty()) return comp;
      // transfer: restriction is the transpose of the piecewise constant prolongation
      using T = Amg::Transfer<size_t, X, PI>; X xf(cur.N), xc(nc), yf(cur.N), yc(nc), f0; auto vf = randVec<double>(g, cur.N * n), vc = randVec<double>(g, nc * n); assign(xf, vf); assign(xc, vc); yc = 7.0; PI pi; T::restrictVector(map, yc, xf, pi);
      std::vector<double> r(nc * n, 0.0), pr = vf; for (size_t i = 0; i < cur.N; ++i) if (map[i] != Map<size_t>::ISOLATED) for (int k = 0; k < n; ++k) { r[map[i] * n + k] += vf[i * n + k]; pr[i * n + k] += 2.0 * vc[map[i] * n + k]; }
      c.check(flatten<double>(yc) == r && flatten<double>(xf) == vf, tt + "/restrict", str("level ", l)); yf = xf; T::prolongateVector(map, xc, yf, 2.0, pi); c.check(flatten<double>(yf) == pr, tt + "/prolongate", str("level ", l));
      for (auto& x : comp) if (x != size_t(-1)) x = map[x] == Map<size_t>::ISOLATED ? size_t(-1) : map[x];
      cur = model<Mat, B>(next->getmat()); m = next; ++am;
    }
    c.check((*am)->noVertices() == 0, tt + "/coarsest-map"); return comp;
  };
  auto comp = check(h, s, t); if (c.failed) return;
  // the numbering of the coarsest aggregates on the finest level
  { std::vector<size_t> data; auto lay = h.matrices().coarsest()->getmat().N(); h.getCoarsestAggregatesOnFinest(data); if (c.check(data.size() == s.N, t + "/coarsest-on-finest-size", str(data.size(), " of ", s.N))) { std::map<size_t, size_t> num; std::set<size_t> used; bool ok = true; for (size_t i = 0; i < s.N && ok; ++i) if (comp[i] != size_t(-1)) { auto it = num.find(comp[i]); if (it == num.end()) { ok = used.insert(data[i]).second && data[i] < lay; num[comp[i]] = data[i]; } else ok = it->second == data[i]; } c.check(ok, t + "/coarsest-on-finest", "the numbering is not constant on, or not distinct between, coarsest aggregates"); } }
  { Dune::Amg::Hierarchy<X> vh(std::make_shared<X>(s.N)); h.coarsenVector(vh); auto v = vh.finest(); auto m = h.matrices().finest(); bool ok = vh.levels() == L; for (size_t l = 0; l < L && ok; ++l) { ok = v->size() == m->getmat().N(); if (l + 1 < L) { ++v; ++m; } } c.check(ok, t + "/coarsenVector"); }
  // changing values and recalculating equals building the products anew on the same aggregates
  Sp<B> s2 = s; perturb(g, s2); setValues(*A, s2); h.recalculateGalerkin(Flags()); check(h, s2, t + "/recalculated"); if (c.failed) return;
  setValues(*A, s); h.recalculateGalerkin(Flags()); check(h, s, t + "/recalculated-back");
  { H h2(op, std::make_shared<PI>()); h2.template build<Flags>(cr); bool ok = h2.levels() == L; auto p = h.matrices().finest(), q = h2.matrices().finest(); for (size_t l = 0; l < L && ok; ++l) { std::map<std::pair<size_t, size_t>, double> mag; auto mo = model<Mat, B>(q->getmat()); for (auto& e : mo.v) mag[e.first] = norm<Amg::FrobeniusNorm>(e.second); auto e = sameMatrix(p->getmat(), mo, mag); ok = e.empty(); if (l + 1 < L) { ++p; ++q; } } c.check(ok, t + "/rebuild-differs"); }
}
template<class B> static void hierAny(vh::Case& c) {
  using M = BCRSMatrix<B>; switch (c.rng.range(0, 3)) { case 0: case 1: hierarchy<Amg::CoarsenCriterion<Amg::SymmetricCriterion<M, Amg::FirstDiagonal>>, B>(c, "sym"); break; case 2: hierarchy<Amg::CoarsenCriterion<Amg::UnSymmetricCriterion<M, Amg::FirstDiagonal>>, B>(c, "unsym"); break; case 3: hierarchy<Amg::CoarsenCriterion<Amg::SymmetricCriterion<M, Amg::RowSum>>, B>(c, "rowsum"); break; }
}
VGROUP("hierarchy-scalar", 700, 4000) { hierAny<FieldMatrix<double, 1, 1>>(c); }
VGROUP("hierarchy-block", 350, 2000) { hierAny<FieldMatrix<double, 2, 2>>(c); }
VGROUP("hierarchy-number", 200, 800) { using M = BCRSMatrix<double>; hierarchy<Amg::CoarsenCriterion<Amg::SymmetricCriterion<M, Amg::FirstDiagonal>>, double>(c, "number"); }
// construction, destruction and early stops release everything
VGROUP("hierarchy-memory", 120, 1200) {
  auto& g = c.rng; using B = FieldMatrix<double, 1, 1>; using Mat = BCRSMatrix<B>; using X = BlockVector<FieldVector<double, 1>>; using Op = Dune::MatrixAdapter<Mat, X, X>; using PI = Amg::SequentialInformation; using H = Amg::MatrixHierarchy<Op, PI>; using Flags = Dune::NegateSet<typename PI::OwnerSet>; using Crit = Amg::CoarsenCriterion<Amg::SymmetricCriterion<Mat, Amg::FirstDiagonal>>;
  std::string kind, pt; double a, b; auto s = problem<B>(g, 60, false, kind); auto A = std::make_shared<Mat>(); build(*A, s, g); auto op = std::make_shared<Op>(std::shared_ptr<const Mat>(A)); int mode = g.range(0, 2); double rate = mode == 1 ? 50.0 : 1.2; Crit cr{Amg::Parameters(mode == 2 ? 0 : 10, 3, rate, 1.6)}; parameters(g, cr, pt, a, b);
  c.note(str(kind, " n=", s.N, " mode ", mode, pt)); c.sig(str(kind, s.N, "m", mode)); auto once = [&] { if (mode == 2) { H h(op, std::make_shared<PI>()); } else { H h(op, std::make_shared<PI>()); h.template build<Flags>(cr); } };
  once(); size_t h0 = heapBytes(); once(); once(); size_t h1 = heapBytes(); c.check(h1 == h0, "leak", str(long(h1 - h0), " bytes kept after two more constructions, ", mode == 0 ? "coarsened" : mode == 1 ? "rate breakdown" : "not built"));
}
