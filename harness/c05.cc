// C05: sparse products, transposes, dimension queries, entry counts, diagonal check against dense algebra.
#include "ref.hh"
#include <dune/istl/matrix.hh>
#include <dune/istl/matrixmatrix.hh>
#include <dune/istl/matrixutils.hh>
#include <dune/common/dynmatrix.hh>
using namespace ref; using namespace vh; using namespace Dune;
template<class K, int n, int m> using BM = BCRSMatrix<FieldMatrix<K, n, m>>;
template<class M, class S> std::string product(const M& C, const S& A, const S&, const DM<typename Blk<typename M::block_type>::K>& D, const Pattern& p, size_t N, size_t Mc) {
  typedef typename M::block_type B; typedef typename Blk<B>::K K; (void)A;
  if (C.N() != N || C.M() != Mc) return str("size ", C.N(), "x", C.M(), " expected ", N, "x", Mc);
  size_t r = 0, cnt = 0; for (auto i = C.begin(); i != C.end(); ++i, ++r) { auto it = p[r].begin(); for (auto j = i->begin(); j != i->end(); ++j, ++it, ++cnt) { if (it == p[r].end() || j.index() != *it) return str("pattern of row ", r); DM<K> b(Blk<B>::n, Blk<B>::m); Blk<B>::put(*j, b, 0, 0); for (int x = 0; x < Blk<B>::n; ++x) for (int y = 0; y < Blk<B>::m; ++y) if (!(b(x, y) == D(r * Blk<B>::n + x, j.index() * Blk<B>::m + y))) return str("value in block (", r, ",", j.index(), "): ", b(x, y), " expected ", D(r * Blk<B>::n + x, j.index() * Blk<B>::m + y)); } if (it != p[r].end()) return str("row ", r, " misses entries"); }
  if (C.nonzeroes() != cnt) return "nonzeroes"; return "";
}
Pattern patMul(const Pattern& a, const Pattern& b) { Pattern p(a.size()); for (size_t i = 0; i < a.size(); ++i) for (auto k : a[i]) for (auto j : b[k]) p[i].insert(j); return p; }
Pattern patT(const Pattern& a, size_t M) { Pattern p(M); for (size_t i = 0; i < a.size(); ++i) for (auto k : a[i]) p[k].insert(i); return p; }
template<class K, int n, int k, int m> void products(Case& c) {
  Rng& g = c.rng; auto dim = [&](size_t mx) -> size_t { return g.coin(0.06) ? 0 : g.range(1, mx); }; size_t N = dim(9), L = dim(9), M = dim(9);
  BM<K, n, m> C; std::string mm; // the result object is reused for several products
  for (int rep = 0; rep < 2; ++rep) {
    auto A = Sp<FieldMatrix<K, n, k>>::rndNM(g, N, L); auto B = Sp<FieldMatrix<K, k, m>>::rndNM(g, L, M); BM<K, n, k> a; BM<K, k, m> b; mm = str(modeName(build(a, A, g)), "*", modeName(build(b, B, g))); c.note(str("A ", A.text(), " B ", B.text(), " ", mm)); c.sig(str(A.kind, B.kind, N, L, M, mm));
    matMultMat(C, a, b, g.coin()); auto d = product(C, A, A, A.D.mul(B.D), patMul(A.p, B.p), N, M); if (!c.check(d.empty(), "matMultMat", d)) return; c.check(compare(a, A).empty() && compare(b, B).empty(), "matMultMat-changed-input");
    auto At = Sp<FieldMatrix<K, k, n>>::rndNM(g, L, N); BM<K, k, n> at; build(at, At, g); c.note(str("At ", At.text(), " B ", B.text()));
    transposeMatMultMat(C, at, b, g.coin()); d = product(C, A, A, At.D.T().mul(B.D), patMul(patT(At.p, N), B.p), N, M); if (!c.check(d.empty(), "transposeMatMultMat", d)) return; c.check(compare(at, At).empty() && compare(b, B).empty(), "transposeMatMultMat-changed-input");
    auto Bt = Sp<FieldMatrix<K, m, k>>::rndNM(g, M, L); BM<K, m, k> bt; build(bt, Bt, g); c.note(str("A ", A.text(), " Bt ", Bt.text()));
    matMultTransposeMat(C, a, bt, g.coin()); d = product(C, A, A, A.D.mul(Bt.D.T()), patMul(A.p, patT(Bt.p, L)), N, M); if (!c.check(d.empty(), "matMultTransposeMat", d)) return; c.check(compare(a, A).empty() && compare(bt, Bt).empty(), "matMultTransposeMat-changed-input");
    if (g.coin(0.3)) { auto X = C; X *= K(2); N = dim(9); L = dim(9); M = dim(9); }
  }
  { // incompatible sizes are rejected
    auto A = Sp<FieldMatrix<K, n, k>>::rndNM(g, 2, 3); auto B = Sp<FieldMatrix<K, k, m>>::rndNM(g, 4, 2); BM<K, n, k> a; BM<K, k, m> b; build(a, A, g); build(b, B, g); bool t = false; try { BM<K, n, m> D; matMultMat(D, a, b); } catch (const Dune::ISTLError&) { t = true; } c.check(t, "size-mismatch-accepted");
  }
}
VGROUP("prod-111", 500, 20000) { products<double, 1, 1, 1>(c); }
VGROUP("prod-222", 300, 10000) { products<double, 2, 2, 2>(c); }
VGROUP("prod-123", 300, 10000) { products<double, 1, 2, 3>(c); }
VGROUP("prod-321", 200, 5000) { products<double, 3, 2, 1>(c); }
VGROUP("prod-c22", 200, 5000) { products<std::complex<double>, 2, 2, 2>(c); }

// nonzero counts and dimensions
template<class B> void util(Case& c, bool anyPattern) {
  Rng& g = c.rng; typedef BCRSMatrix<B> M; auto A = Sp<B>::rnd(g, 9); if (!anyPattern) { size_t n = g.range(1, 7); A = Sp<B>::rndNM(g, n, n, true, true); } M a; int mode = build(a, A, g); c.note(str(A.text(), " ", modeName(mode))); c.sig(c.desc);
  if (g.coin()) (void)a.nonzeroes();
  typedef MatrixDimension<M> MD; constexpr size_t n = Blk<B>::n, m = Blk<B>::m;
  c.check(MD::rowdim(a) == A.N * n, "rowdim", str(MD::rowdim(a), " expected ", A.N * n)); c.check(MD::coldim(a) == A.M * m, "coldim", str(MD::coldim(a), " expected ", A.M * m));
  for (size_t i = 0; i < A.N; ++i) c.check(MD::rowdim(a, i) == n, "rowdim-of-row"); for (size_t j = 0; j < A.M; ++j) c.check(MD::coldim(a, j) == m, "coldim-of-column", str(MD::coldim(a, j)));
  if constexpr (IsNumber<B>::value || requires(B b) { b[0][0]; (*b.begin())[0]; }) { size_t per = 0; if constexpr (std::is_same_v<B, ScaledIdentityMatrix<double, 2>> || std::is_same_v<B, DiagonalMatrix<double, 2>>) per = n; else per = n * m; c.check(size_t(countNonZeros(a)) == A.v.size() * per, "countNonZeros", str(countNonZeros(a), " expected ", A.v.size() * per)); }
}
VGROUP("util-double", 500, 20000) { util<double>(c, true); }
VGROUP("util-f11", 200, 5000) { util<FieldMatrix<double, 1, 1>>(c, true); }
VGROUP("util-f23", 400, 10000) { util<FieldMatrix<double, 2, 3>>(c, true); }
VGROUP("util-diag", 200, 5000) { util<DiagonalMatrix<double, 2>>(c, false); }
VGROUP("util-sid", 200, 5000) { util<ScaledIdentityMatrix<double, 2>>(c, false); }
VGROUP("util-nested", 200, 5000) { // blocks of different sizes
  Rng& g = c.rng; size_t N = g.range(1, 4), M = g.range(1, 4); std::vector<size_t> rs(N), cs(M); for (auto& x : rs) x = g.range(1, 3); for (auto& x : cs) x = g.range(1, 3); typedef BCRSMatrix<double> In; BCRSMatrix<In> A; Sp<double> s; s.N = N; s.M = M; s.p = randPattern(g, N, M); buildPattern(A, s, g, g.range(0, NModes - 1)); size_t cnt = 0, rd = 0, cd = 0; std::vector<bool> hc(M);
  for (size_t i = 0; i < N; ++i) { if (s.p[i].size()) rd += rs[i]; for (auto j : s.p[i]) { if (!hc[j]) cd += cs[j]; hc[j] = true; auto b = Sp<double>::rndNM(g, rs[i], cs[j]); In in; build(in, b, g); A[i][j] = in; cnt += b.v.size(); } }
  c.sig(str(N, M, cnt)); typedef MatrixDimension<BCRSMatrix<In>> MD; c.check(size_t(countNonZeros(A)) == cnt, "nested-countNonZeros"); c.check(MD::rowdim(A) == rd, "nested-rowdim", str(MD::rowdim(A), " expected ", rd)); c.check(MD::coldim(A) == cd, "nested-coldim", str(MD::coldim(A), " expected ", cd));
}
VGROUP("dense", 300, 8000) {
  Rng& g = c.rng; size_t N = g.range(0, 6), L = g.range(0, 6), M = g.range(0, 6); auto rnd = [&](size_t r, size_t q) { DM<double> d(r, q); for (auto& x : d.a) x = smallInt<double>(g); return d; }; auto DA = rnd(N, L), DB = rnd(L, M); Matrix<double> A(N, L), B(L, M); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < L; ++j) A[i][j] = DA(i, j); for (size_t i = 0; i < L; ++i) for (size_t j = 0; j < M; ++j) B[i][j] = DB(i, j);
  c.sig(str(N, L, M)); auto eq = [&](const Matrix<double>& X, const DM<double>& D) { if (X.N() != D.r || X.M() != D.c) return false; for (size_t i = 0; i < D.r; ++i) for (size_t j = 0; j < D.c; ++j) if (X[i][j] != D(i, j)) return false; return true; };
  c.check(eq(A.transpose(), DA.T()), "dense-transpose"); c.check(eq(A * B, DA.mul(DB)), "dense-product"); c.check(eq(A, DA) && eq(B, DB), "dense-changed-input");
  auto x = randVec<double>(g, L); BlockVector<double> v(L), w; assign(v, x); w = operator*<BlockVector<double>, BlockVector<double>>(A, v); c.check(flatten<double>(w) == DA.mul(x), "dense-matrix-vector");
  if (N && L) { c.check(MatrixDimension<Matrix<double>>::rowdim(A) == N && MatrixDimension<Matrix<double>>::coldim(A) == L, "dense-dimension"); c.check(size_t(countNonZeros(A)) == N * L, "dense-count"); }
  Matrix<FieldMatrix<double, 2, 3>> F(N, M); c.check(MatrixDimension<decltype(F)>::rowdim(F) == 2 * N && MatrixDimension<decltype(F)>::coldim(F) == 3 * M, "dense-block-dimension"); DynamicMatrix<double> dy(N, M, 0.0); if (N) c.check(MatrixDimension<DynamicMatrix<double>>::rowdim(dy) == N && MatrixDimension<DynamicMatrix<double>>::coldim(dy) == M, "dynamic-dimension");
}
template<class B, int lev> void diagCheck(Case& c) {
  Rng& g = c.rng; size_t N = g.range(0, 7); auto A = Sp<B>::rndNM(g, N, N, true, true); bool drop = N && g.coin(); if (drop) { size_t r = g.range(0, N - 1); A.p[r].erase(r); A.v.erase({r, r}); } BCRSMatrix<B> a; build(a, A, g); bool t = false; try { CheckIfDiagonalPresent<BCRSMatrix<B>, lev>::check(a); } catch (const Dune::ISTLError&) { t = true; } c.sig(str(N, drop, A.kind)); c.check(t == drop, drop ? "missing-diagonal-not-reported" : "diagonal-reported-missing");
}
VGROUP("diagonal-0", 300, 5000) { diagCheck<FieldMatrix<double, 2, 2>, 0>(c); diagCheck<double, 0>(c); }
#ifdef DUNE_ISTL_WITH_CHECKING
VGROUP("diagonal-nested", 300, 5000) {
  Rng& g = c.rng; size_t N = g.range(1, 4); typedef BCRSMatrix<FieldMatrix<double, 2, 2>> In; BCRSMatrix<In> A; Sp<double> s; s.N = s.M = N; s.p = randPattern(g, N, N, true); buildPattern(A, s, g, g.range(0, NModes - 1)); bool outer = false, inner = false; size_t bad = g.range(0, N - 1); bool dropIn = g.coin();
  for (size_t i = 0; i < N; ++i) for (auto j : s.p[i]) { size_t n = g.range(1, 3); auto b = Sp<FieldMatrix<double, 2, 2>>::rndNM(g, n, n, true, i == j); if (i == j && i == bad && dropIn) { b.p[0].erase(0); b.v.erase({0, 0}); inner = true; } In in; build(in, b, g); A[i][j] = in; }
  c.sig(str(N, inner)); bool t = false; try { CheckIfDiagonalPresent<BCRSMatrix<In>, 1>::check(A); } catch (const Dune::ISTLError&) { t = true; } c.check(t == inner, inner ? "missing-inner-diagonal-not-reported" : "inner-diagonal-reported-missing"); (void)outer;
}
#endif
