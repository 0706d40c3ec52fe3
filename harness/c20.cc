// C20: flat traversal and block level queries against independently built flat models.
#include "ref.hh"
#include <array>
#include <dune/common/dynmatrix.hh>
#include <dune/common/dynvector.hh>
#include <dune/common/bitsetvector.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/foreach.hh>
#include <dune/istl/blocklevel.hh>
using namespace ref;
using namespace Dune;

// ---- vectors: fill with running numbers in nesting order, by an independent recursive walk ---------
template<class V> struct Depth; // independent nesting depth (min,max)
template<> struct Depth<double> { static constexpr int lo = 0, hi = 0; };
template<> struct Depth<int> { static constexpr int lo = 0, hi = 0; };
template<> struct Depth<std::complex<double>> { static constexpr int lo = 0, hi = 0; };
template<class K, int n> struct Depth<FieldVector<K, n>> { static constexpr int lo = 1 + Depth<K>::lo, hi = 1 + Depth<K>::hi; };
template<class K, int n, int m> struct Depth<FieldMatrix<K, n, m>> { static constexpr int lo = 1, hi = 1; };
template<class K, int n> struct Depth<ScaledIdentityMatrix<K, n>> { static constexpr int lo = 1, hi = 1; };
template<class K, int n> struct Depth<DiagonalMatrix<K, n>> { static constexpr int lo = 1, hi = 1; };
template<class B, class A> struct Depth<BlockVector<B, A>> { static constexpr int lo = 1 + Depth<B>::lo, hi = 1 + Depth<B>::hi; };
template<class B, class A> struct Depth<VariableBlockVector<B, A>> { static constexpr int lo = 2 + Depth<B>::lo, hi = 2 + Depth<B>::hi; };
template<class B, class A> struct Depth<BCRSMatrix<B, A>> { static constexpr int lo = 1 + Depth<B>::lo, hi = 1 + Depth<B>::hi; };
template<class B, class A> struct Depth<BDMatrix<B, A>> { static constexpr int lo = 1 + Depth<B>::lo, hi = 1 + Depth<B>::hi; };
template<class B, class A> struct Depth<BTDMatrix<B, A>> { static constexpr int lo = 1 + Depth<B>::lo, hi = 1 + Depth<B>::hi; };
template<class B, class A> struct Depth<Matrix<B, A>> { static constexpr int lo = 1 + Depth<B>::lo, hi = 1 + Depth<B>::hi; };
template<class... B> struct Depth<MultiTypeBlockVector<B...>> { static constexpr int lo = 1 + std::min({Depth<std::decay_t<B>>::lo...}), hi = 1 + std::max({Depth<std::decay_t<B>>::hi...}); };
template<class R, class... B> struct Depth<MultiTypeBlockMatrix<R, B...>> { static constexpr int lo = std::min({Depth<std::decay_t<R>>::lo, Depth<std::decay_t<B>>::lo...}) + 1, hi = std::max({Depth<std::decay_t<R>>::hi, Depth<std::decay_t<B>>::hi...}) + 1; };
template<class T> void level(vh::Case& c, const char* n) {
  // a row of a multi-type matrix is a multi-type vector but does not add a level of its own
  constexpr bool mm = requires { T::N(); T::M(); } && std::is_empty_v<std::integral_constant<int, 0>> && !requires(T t) { t.begin(); };
  long lo = Depth<T>::lo - (mm ? 1 : 0), hi = Depth<T>::hi - (mm ? 1 : 0);
  c.check(long(minBlockLevel<T>()) == lo && long(maxBlockLevel<T>()) == hi, vh::str("level-", n), vh::str("min ", minBlockLevel<T>(), " max ", maxBlockLevel<T>(), " expected ", lo, " ", hi));
  c.check(hasUniqueBlockLevel<T>() == (lo == hi), vh::str("unique-", n));
  if constexpr (Depth<T>::lo == Depth<T>::hi) c.check(long(blockLevel<T>()) == hi, vh::str("blocklevel-", n));
  c.sig(vh::str("level ", n, " ", lo, " ", hi));
}
template<class T> struct fieldOf { using type = typename FieldTraits<T>::field_type; };
template<class... B> struct fieldOf<MultiTypeBlockVector<B...>> { using type = std::common_type_t<typename fieldOf<std::decay_t<B>>::type...>; };
template<class B, std::size_t n> struct fieldOf<std::array<B, n>> : fieldOf<B> {};
template<class B> struct fieldOf<std::vector<B>> : fieldOf<B> {};

template<class V> void vec(vh::Case& c, const char* name, V& v) {
  using K = typename fieldOf<V>::type; auto& g = c.rng;
  std::vector<K> want = flatten<K>(v);
  for (auto& x : want) x = realVal<K>(g);
  assign(v, want);
  c.note(vh::str(name, " n=", want.size()));
  std::size_t off = g.coin() ? 0 : g.range(1, 1000);
  for (int cst = 0; cst < 2; ++cst) {
    std::vector<std::size_t> idx; std::vector<K> val; std::set<const void*> addr;
    auto f = [&](auto&& e, std::size_t i) { idx.push_back(i); val.push_back(e); addr.insert(&e); };
    std::size_t n = cst ? flatVectorForEach(std::as_const(v), f, off) : flatVectorForEach(v, f, off);
    c.ev(n);
    if (!c.check(n == want.size(), vh::str(name, "-return"), vh::str("returned ", n, " expected ", want.size()))) return;
    if (!c.check(val == want, vh::str(name, "-values"), show(val) + " expected " + show(want))) return;
    for (size_t i = 0; i < idx.size(); ++i) if (!c.check(idx[i] == off + i, vh::str(name, "-index"), vh::str("visit ", i, " index ", idx[i], " offset ", off))) return;
    c.check(addr.size() == want.size(), vh::str(name, "-alias"));
  }
  flatVectorForEach(v, [&](auto&& e, std::size_t i) { e = K(double(i)); });
  auto now = flatten<K>(v); bool ok = true; for (size_t i = 0; i < now.size(); ++i) ok = ok && now[i] == K(double(i));
  c.check(ok, vh::str(name, "-write"), show(now));
  c.sig(vh::str(name, " ", want.size(), " off", off != 0));
}
VGROUP("vectors", 6000, 100000) {
  auto& g = c.rng; size_t n = g.range(0, 12);
  switch (g.range(0, 13)) {
    case 0: { BlockVector<double> v(n); vec(c, "BV<double>", v); break; }
    case 1: { BlockVector<FieldVector<double, 3>> v(n); vec(c, "BV<FV3>", v); break; }
    case 2: { BlockVector<BlockVector<FieldVector<double, 2>>> v(n); for (auto& x : v) x.resize(g.range(0, 4)); vec(c, "BV<BV<FV2>>", v); break; }
    case 3: { BlockVector<BlockVector<BlockVector<double>>> v(g.range(0, 5)); for (auto& x : v) { x.resize(g.range(0, 4)); for (auto& y : x) y.resize(g.range(0, 3)); } vec(c, "BV<BV<BV>>", v); break; }
    case 4: { VariableBlockVector<FieldVector<double, 2>> v(n); for (auto it = v.createbegin(); it != v.createend(); ++it) it.setblocksize(g.range(0, 4)); vec(c, "VBV<FV2>", v); break; }
    case 5: { VariableBlockVector<double> v(n, g.range(1, 4)); vec(c, "VBV<double>", v); break; }
    case 6: { MultiTypeBlockVector<BlockVector<FieldVector<double, 2>>, BlockVector<double>> v; v[Indices::_0].resize(n); v[Indices::_1].resize(g.range(0, 6)); vec(c, "MTBV", v); break; }
    case 7: { MultiTypeBlockVector<MultiTypeBlockVector<BlockVector<double>, FieldVector<double, 3>>, BlockVector<BlockVector<double>>, double> v; v[Indices::_0][Indices::_0].resize(n); v[Indices::_1].resize(g.range(0, 3)); for (auto& x : v[Indices::_1]) x.resize(g.range(0, 3)); vec(c, "MTBV<MTBV>", v); break; }
    case 8: { BlockVector<FieldVector<std::complex<double>, 2>> v(n); vec(c, "BV<FVc>", v); break; }
    case 9: { BlockVector<MultiTypeBlockVector<FieldVector<double, 2>, double>> v(n); vec(c, "BV<MTBV>", v); break; }
    case 10: { FieldVector<FieldVector<double, 2>, 3> v; vec(c, "FV<FV>", v); break; }
    case 11: { std::vector<FieldVector<double, 2>> v(n); vec(c, "std::vector", v); break; }
    case 12: { std::array<BlockVector<double>, 3> v; for (auto& x : v) x.resize(g.range(0, 5)); vec(c, "std::array", v); break; }
    case 13: { BitSetVector<3> v(n); std::vector<int> want; for (size_t i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) { bool b = g.coin(); v[i][k] = b; want.push_back(b); }
        std::vector<int> got; bool idx = true; size_t r = flatVectorForEach(std::as_const(v), [&](auto&& e, std::size_t i) { idx = idx && i == got.size(); got.push_back(bool(e)); });
        c.check(r == want.size() && got == want && idx, "bitset", vh::str(r, " of ", want.size())); c.sig(vh::str("bits ", n)); break; }
  }
}
// ---- matrices ---------------------------------------------------------------------------------------
template<class K> struct E { size_t r, c; K v; bool operator==(const E& o) const { return r == o.r && c == o.c && v == o.v; } };
// expected visits of one block at (r,c), independent of the library's iterators where possible
template<class K> void visits(const K& b, size_t r, size_t c, std::vector<E<K>>& o) { o.push_back({r, c, b}); }
template<class K, int n, int m> void visits(const FieldMatrix<K, n, m>& b, size_t r, size_t c, std::vector<E<K>>& o) { for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) o.push_back({r + i, c + j, b[i][j]}); }
template<class K, int n> void visits(const ScaledIdentityMatrix<K, n>& b, size_t r, size_t c, std::vector<E<K>>& o) { for (int i = 0; i < n; ++i) o.push_back({r + i, c + i, b.scalar()}); }
template<class K, int n> void visits(const DiagonalMatrix<K, n>& b, size_t r, size_t c, std::vector<E<K>>& o) { for (int i = 0; i < n; ++i) o.push_back({r + i, c + i, b.diagonal(i)}); }
template<class B, class K> void visits(const Sp<B>& s, size_t r, size_t c, std::vector<E<K>>& o) { for (auto& e : s.v) visits(e.second, r + e.first.first * Blk<B>::n, c + e.first.second * Blk<B>::m, o); }

template<class K, class Mat> bool mat(vh::Case& c, const std::string& name, Mat& A, const std::vector<E<K>>& want, size_t R, size_t C, bool shared = false) {
  auto& g = c.rng; std::size_t ro = g.coin() ? 0 : g.range(1, 50), co = g.coin() ? 0 : g.range(1, 50);
  c.note(vh::str(name, " ", R, "x", C, " nnz ", want.size()));
  for (int cst = 0; cst < 2; ++cst) {
    std::vector<E<K>> got; std::set<const void*> addr; auto f = [&](auto&& e, std::size_t i, std::size_t j) { got.push_back({i - ro, j - co, K(e)}); addr.insert(&e); };
    std::pair<size_t, size_t> d = cst ? flatMatrixForEach(std::as_const(A), f, ro, co) : flatMatrixForEach(A, f, ro, co);
    c.ev(got.size());
    if (!c.check(d.first == R && d.second == C, name + "-return", vh::str("returned ", d.first, "x", d.second, " expected ", R, "x", C))) return false;
    if (!(got == want)) { std::string w = vh::str(got.size(), " visits, expected ", want.size()); for (size_t k = 0; k < std::min(got.size(), want.size()); ++k) if (!(got[k] == want[k])) { w += vh::str("; visit ", k, ": (", got[k].r, ",", got[k].c, ")=", got[k].v, " expected (", want[k].r, ",", want[k].c, ")=", want[k].v); break; } c.fail(name + "-visits", w); return false; }
    if (!shared && !c.check(addr.size() == want.size(), name + "-alias")) return false;
  }
  // writes through visited references reach the container
  if (!shared) {
    size_t k = 0; flatMatrixForEach(A, [&](auto&& e, std::size_t, std::size_t) { e = K(double(++k)); }); std::vector<K> val; flatMatrixForEach(A, [&](auto&& e, std::size_t, std::size_t) { val.push_back(e); });
    bool ok = val.size() == want.size(); for (size_t i = 0; ok && i < val.size(); ++i) ok = val[i] == K(double(i + 1)); c.check(ok, name + "-write");
  }
  c.sig(vh::str(name, " ", R, "x", C, " nnz", want.size(), " off", ro != 0, co != 0)); return true;
}
template<class B> void sparse(vh::Case& c, const char* name, bool shared = false) {
  using K = typename Blk<B>::K; auto& g = c.rng; auto s = Sp<B>::rnd(g, 9, false); BCRSMatrix<B> A; int m = build(A, s, g); std::vector<E<K>> w; visits(s, 0, 0, w);
  size_t R = s.N * Blk<B>::n, C = s.M * Blk<B>::m; if (!mat<K>(c, std::string("BCRS<") + name + ">", A, w, R, C, shared)) return;
  if (!shared) { // the writes must be seen through the normal interface, in block order
    DM<K> D(R, C); size_t k = 0; std::vector<K> seen; for (size_t i = 0; i < s.N; ++i) for (auto j : s.p[i]) { std::vector<E<K>> o; visits(B(A[i][j]), 0, 0, o); for (auto& e : o) { ++k; if (!(e.v == K(double(k)))) { c.fail("write-lost", vh::str(name, " entry ", k, " mode ", modeName(m))); return; } } } }
}
template<class B> void dense(vh::Case& c, const char* name) {
  using K = typename Blk<B>::K; auto& g = c.rng; size_t N = g.range(0, 6), M = g.range(1, 6); Pattern p(N); for (auto& r : p) for (size_t j = 0; j < M; ++j) r.insert(j);
  auto s = Sp<B>::make(g, N, M, p, [](vh::Rng& r) { return realVal<K>(r); }); Matrix<B> A(N, M); for (auto& e : s.v) A[e.first.first][e.first.second] = e.second; std::vector<E<K>> w; visits(s, 0, 0, w);
  if (N == 0) M = 0; // the number of columns cannot be seen without a row
  mat<K>(c, std::string("Matrix<") + name + ">", A, w, N * Blk<B>::n, M * Blk<B>::m);
}
template<class B, bool tri> void banded(vh::Case& c, const char* name) {
  using K = typename Blk<B>::K; auto& g = c.rng; size_t N = g.range(1, 8); Pattern p(N); for (size_t i = 0; i < N; ++i) for (long j = long(i) - tri; j <= long(i) + tri; ++j) if (j >= 0 && j < long(N)) p[i].insert(j);
  auto s = Sp<B>::make(g, N, N, p, [](vh::Rng& r) { return realVal<K>(r); }); using Mt = std::conditional_t<tri, BTDMatrix<B>, BDMatrix<B>>; Mt A(N); for (auto& e : s.v) A[e.first.first][e.first.second] = e.second; std::vector<E<K>> w; visits(s, 0, 0, w);
  c.note(name); mat<K>(c, std::string(tri ? "BTD<" : "BD<") + name + ">", A, w, N * Blk<B>::n, N * Blk<B>::m);
}
template<class B> void nested(vh::Case& c, const char* name) {
  using K = typename Blk<B>::K; auto& g = c.rng; using In = BCRSMatrix<B>; size_t n = g.range(1, 4), m = g.range(1, 4);
  auto outer = Sp<double>::rndNM(g, g.range(1, 5), g.range(1, 5)); if (outer.v.empty()) { outer.p[0].insert(0); outer.v[{0, 0}] = 0; }
  BCRSMatrix<In> A; buildPattern(A, outer, g, g.pick({(int)RowKnown, (int)Random, (int)SetIdx, (int)IdxSet})); std::vector<E<K>> w;
  for (auto& e : outer.v) { auto s = Sp<B>::rndNM(g, n, m, false); In a; build(a, s, g); A[e.first.first][e.first.second] = a; visits(s, e.first.first * n * Blk<B>::n, e.first.second * m * Blk<B>::m, w); }
  mat<K>(c, std::string("BCRS<BCRS<") + name + ">>", A, w, outer.N * n * Blk<B>::n, outer.M * m * Blk<B>::m);
}
void multi(vh::Case& c) {
  auto& g = c.rng; size_t n0 = g.range(1, 4), n1 = g.range(1, 4), m0 = g.range(1, 4), m1 = g.range(1, 4);
  using A00 = BCRSMatrix<FieldMatrix<double, 2, 3>>; using A01 = BCRSMatrix<FieldMatrix<double, 2, 1>>; using A10 = BCRSMatrix<FieldMatrix<double, 1, 3>>; using A11 = BCRSMatrix<double>;
  auto s00 = Sp<FieldMatrix<double, 2, 3>>::rndNM(g, n0, m0, false); auto s01 = Sp<FieldMatrix<double, 2, 1>>::rndNM(g, n0, m1, false); auto s10 = Sp<FieldMatrix<double, 1, 3>>::rndNM(g, n1, m0, false); auto s11 = Sp<double>::rndNM(g, n1, m1, false);
  MultiTypeBlockMatrix<MultiTypeBlockVector<A00, A01>, MultiTypeBlockVector<A10, A11>> A; using namespace Indices;
  build(A[_0][_0], s00, g); build(A[_0][_1], s01, g); build(A[_1][_0], s10, g); build(A[_1][_1], s11, g);
  std::vector<E<double>> w; visits(s00, 0, 0, w); visits(s01, 0, 3 * m0, w); visits(s10, 2 * n0, 0, w); visits(s11, 2 * n0, 3 * m0, w);
  mat<double>(c, "MTBM", A, w, 2 * n0 + n1, 3 * m0 + m1);
}
VGROUP("matrices", 10000, 150000) {
  auto& g = c.rng; using FM = FieldMatrix<double, 2, 3>; using F2 = FieldMatrix<double, 2, 2>; using C2 = FieldMatrix<std::complex<double>, 2, 1>; using D2 = DiagonalMatrix<double, 2>; using S2 = ScaledIdentityMatrix<double, 3>;
  switch (g.range(0, 18)) {
    case 0: sparse<double>(c, "double"); break; case 1: sparse<FM>(c, "FM23"); break; case 2: sparse<C2>(c, "FMc21"); break; case 3: sparse<D2>(c, "Diag2"); break; case 4: sparse<S2>(c, "SId3", true); break;
    case 5: dense<double>(c, "double"); break; case 6: dense<FM>(c, "FM23"); break;
    case 7: banded<double, true>(c, "double"); break; case 8: banded<F2, true>(c, "FM2"); break; case 9: banded<double, false>(c, "double"); break; case 10: banded<F2, false>(c, "FM2"); break;
    case 11: case 12: nested<double>(c, "double"); break; case 13: nested<FM>(c, "FM23"); break; case 14: case 15: multi(c); break;
    case 16: { DynamicMatrix<double> A(g.range(1, 4), g.range(1, 4)); std::vector<E<double>> w; for (size_t i = 0; i < A.N(); ++i) for (size_t j = 0; j < A.M(); ++j) { A[i][j] = g.real(-1, 1); w.push_back({i, j, A[i][j]}); } mat<double>(c, "DynamicMatrix", A, w, A.N(), A.M()); break; }
    case 17: { FM A; std::vector<E<double>> w; for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 3; ++j) { A[i][j] = g.real(-1, 1); w.push_back({i, j, A[i][j]}); } mat<double>(c, "FieldMatrix", A, w, 2, 3); break; }
    case 18: { D2 A; std::vector<E<double>> w; for (size_t i = 0; i < 2; ++i) { A.diagonal(i) = g.real(-1, 1); w.push_back({i, i, A.diagonal(i)}); } mat<double>(c, "Diagonal", A, w, 2, 2); break; }
  }
}
VGROUP("levels", 1, 1) {
  level<double>(c, "double"); level<std::complex<double>>(c, "complex"); level<FieldVector<double, 3>>(c, "FV"); level<FieldMatrix<double, 2, 2>>(c, "FM"); level<FieldMatrix<double, 1, 1>>(c, "FM1"); level<ScaledIdentityMatrix<double, 2>>(c, "SId"); level<DiagonalMatrix<double, 2>>(c, "Diag");
  level<BlockVector<double>>(c, "BVd"); level<BlockVector<FieldVector<double, 1>>>(c, "BVFV"); level<BlockVector<BlockVector<FieldVector<double, 1>>>>(c, "BVBVFV"); level<VariableBlockVector<FieldVector<double, 2>>>(c, "VBV");
  level<BCRSMatrix<double>>(c, "BCRSd"); level<BCRSMatrix<FieldMatrix<double, 2, 2>>>(c, "BCRSFM"); level<BCRSMatrix<BCRSMatrix<FieldMatrix<double, 2, 2>>>>(c, "BCRS2"); level<Matrix<FieldMatrix<double, 2, 2>>>(c, "Matrix"); level<BTDMatrix<double>>(c, "BTD"); level<BDMatrix<FieldMatrix<double, 2, 2>>>(c, "BD");
  using V1 = MultiTypeBlockVector<BlockVector<FieldVector<double, 2>>, BlockVector<double>>; level<V1>(c, "MTBV1"); using V2 = MultiTypeBlockVector<double, V1, BlockVector<BlockVector<BlockVector<double>>>>; level<V2>(c, "MTBV2"); level<BlockVector<V1>>(c, "BVMTBV"); level<MultiTypeBlockVector<V1, V1>>(c, "MTBVMTBV");
  level<MultiTypeBlockVector<BlockVector<double>, BlockVector<double>>>(c, "MTBVuniq"); level<MultiTypeBlockVector<BlockVector<BlockVector<double>>, double>>(c, "MTBV-first-deep"); level<MultiTypeBlockVector<double, BlockVector<BlockVector<double>>>>(c, "MTBV-last-deep");
  using A = BCRSMatrix<double>; using B = BCRSMatrix<FieldMatrix<double, 2, 2>>; using C = BCRSMatrix<B>;
  level<MultiTypeBlockMatrix<MultiTypeBlockVector<A, A>, MultiTypeBlockVector<A, A>>>(c, "MTBM-uniq"); level<MultiTypeBlockMatrix<MultiTypeBlockVector<B, A>, MultiTypeBlockVector<A, A>>>(c, "MTBM-00"); level<MultiTypeBlockMatrix<MultiTypeBlockVector<A, B>, MultiTypeBlockVector<A, A>>>(c, "MTBM-01"); level<MultiTypeBlockMatrix<MultiTypeBlockVector<A, A>, MultiTypeBlockVector<C, A>>>(c, "MTBM-10"); level<MultiTypeBlockMatrix<MultiTypeBlockVector<B, B>, MultiTypeBlockVector<B, A>>>(c, "MTBM-11"); level<MultiTypeBlockMatrix<MultiTypeBlockVector<C, C, A>, MultiTypeBlockVector<C, C, C>>>(c, "MTBM-rect");
}
