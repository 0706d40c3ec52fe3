// C02: matrix kernels, norms and vector-space operations of every matrix container vs. the dense definition.
#include "ref.hh"
#include <dune/istl/matrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/common/diagonalmatrix.hh>
#include <dune/common/simd/loop.hh>
using namespace ref; using namespace vh;
#ifndef PART
#define PART 0
#endif
typedef std::complex<double> C;
template<class K> bool same(const std::vector<K>& a, const std::vector<K>& b) { return a == b; }
template<class K> std::vector<K> axpy(K s, const std::vector<K>& a, std::vector<K> y) { for (size_t i = 0; i < y.size(); ++i) y[i] += s * a[i]; return y; }

// exact comparison (small integers) of all kernels. x1/y1: prototypes of domain and range vectors
template<class Mat, class K, class X, class Y> void kernels(Case& c, const Mat& A, const DM<K>& D, X x, Y y, const std::string& t) {
  Rng& g = c.rng; auto T = D.T(), H = D.H(); auto xv = randVec<K>(g, D.c), yv = randVec<K>(g, D.r); K al = smallNZ<K>(g);
  auto go = [&](const char* name, auto&& f, const DM<K>& Op, int kind /*0 set 1 add -1 sub 2 axpy*/, auto in, auto out, const std::vector<K>& iv, const std::vector<K>& ov) {
    assign(in, iv); assign(out, ov); auto q = Op.mul(iv); std::vector<K> e = kind == 0 ? q : axpy(kind == 1 ? K(1) : kind == -1 ? K(-1) : al, q, ov);
    f(in, out); auto r = flatten<K>(out), i2 = flatten<K>(in);
    if (!c.check(same(r, e), t + "/" + name, str("got ", show(r), " expected ", show(e), " input ", show(iv), " start ", show(ov), " alpha ", al, " A ", show(D)))) return;
    c.check(same(i2, iv), t + "/" + name + "-input-modified");
  };
  if constexpr (requires { A.mv(x, y); }) go("mv", [&](auto& i, auto& o) { A.mv(i, o); }, D, 0, x, y, xv, yv);
  if constexpr (requires { A.umv(x, y); }) go("umv", [&](auto& i, auto& o) { A.umv(i, o); }, D, 1, x, y, xv, yv);
  if constexpr (requires { A.mmv(x, y); }) go("mmv", [&](auto& i, auto& o) { A.mmv(i, o); }, D, -1, x, y, xv, yv);
  if constexpr (requires { A.usmv(al, x, y); }) go("usmv", [&](auto& i, auto& o) { A.usmv(al, i, o); }, D, 2, x, y, xv, yv);
  if constexpr (requires { A.mtv(y, x); }) go("mtv", [&](auto& i, auto& o) { A.mtv(i, o); }, T, 0, y, x, yv, xv);
  if constexpr (requires { A.umtv(y, x); }) go("umtv", [&](auto& i, auto& o) { A.umtv(i, o); }, T, 1, y, x, yv, xv);
  if constexpr (requires { A.mmtv(y, x); }) go("mmtv", [&](auto& i, auto& o) { A.mmtv(i, o); }, T, -1, y, x, yv, xv);
  if constexpr (requires { A.usmtv(al, y, x); }) go("usmtv", [&](auto& i, auto& o) { A.usmtv(al, i, o); }, T, 2, y, x, yv, xv);
  if constexpr (requires { A.umhv(y, x); }) go("umhv", [&](auto& i, auto& o) { A.umhv(i, o); }, H, 1, y, x, yv, xv);
  if constexpr (requires { A.mmhv(y, x); }) go("mmhv", [&](auto& i, auto& o) { A.mmhv(i, o); }, H, -1, y, x, yv, xv);
  if constexpr (requires { A.usmhv(al, y, x); }) go("usmhv", [&](auto& i, auto& o) { A.usmhv(al, i, o); }, H, 2, y, x, yv, xv);
}
// rn/cn: flat row/column offsets of the block grid used for the block-wise row-sum norm
template<class K> double blockRowSum(const DM<K>& D, const std::vector<size_t>& ro, const std::vector<size_t>& co, bool manh) {
  double mx = 0; for (size_t I = 0; I + 1 < ro.size(); ++I) { double s = 0; for (size_t J = 0; J + 1 < co.size(); ++J) { double b = 0; for (size_t i = ro[I]; i < ro[I + 1]; ++i) { double r = 0; for (size_t j = co[J]; j < co[J + 1]; ++j) r += manh ? dabs1(D(i, j)) : dabs(D(i, j)); b = std::max(b, r); } s += b; } mx = std::max(mx, s); }
  return mx;
}
inline std::vector<size_t> offs(size_t n, size_t b) { std::vector<size_t> o; for (size_t i = 0; i <= n; ++i) o.push_back(i * b); return o; }
inline bool close(double a, double b) { return std::abs(a - b) <= 1e-13 * std::max(1.0, std::abs(b)); }
template<class Mat, class K> void norms(Case& c, const Mat& A, const DM<K>& D, const std::vector<size_t>& ro, const std::vector<size_t>& co, const std::string& t) {
  double f2 = 0; for (auto& v : D.a) f2 += dabs2(v);
  if constexpr (requires { A.frobenius_norm2(); }) c.check(close(A.frobenius_norm2(), f2), t + "/frobenius_norm2", str(A.frobenius_norm2(), " vs ", f2));
  if constexpr (requires { A.frobenius_norm(); }) c.check(close(A.frobenius_norm(), std::sqrt(f2)), t + "/frobenius_norm", str(A.frobenius_norm()));
  double e = blockRowSum(D, ro, co, false), em = blockRowSum(D, ro, co, true);
  if constexpr (requires { A.infinity_norm(); }) c.check(close(A.infinity_norm(), e), t + "/infinity_norm", str(A.infinity_norm(), " vs ", e, " A ", show(D)));
  if constexpr (requires { A.infinity_norm_real(); }) c.check(close(A.infinity_norm_real(), em), t + "/infinity_norm_real", str(A.infinity_norm_real(), " vs ", em));
}
template<class Mat, class S> bool sameVals(Case& c, const Mat& A, S s, const std::string& key) { auto d = compare(A, s); return c.check(d.empty(), key, d); }

template<class B, class XB, class YB> void bcrs(Case& c, const std::string& t) {
  Rng& g = c.rng; using K = typename Blk<B>::K; typedef Dune::BCRSMatrix<B> Mt; auto s = Sp<B>::rnd(g, c.thorough ? 20 : 9); int mode; Mt A; mode = build(A, s, g); c.note(t + " " + modeName(mode) + " " + s.text());
  if (g.coin(0.3)) A.nonzeroes();
  Dune::BlockVector<XB> x(s.M); Dune::BlockVector<YB> y(s.N);
  kernels(c, A, s.D, x, y, t); norms(c, A, s.D, offs(s.N, Blk<B>::n), offs(s.M, Blk<B>::m), t);
  sameVals(c, A, s, t + "/const-kernels-modified-matrix");
  // vector space: subset pattern for the second operand
  Pattern p2(s.N); for (size_t i = 0; i < s.N; ++i) for (auto j : s.p[i]) if (g.coin(0.6)) p2[i].insert(j);
  auto s2 = Sp<B>::make(g, s.N, s.M, p2, [](Rng& r) { return smallInt<K>(r); }); Mt Bm; build(Bm, s2, g); K al = smallNZ<K>(g);
  auto op = [&](const char* nm, auto&& f, auto&& e) { Mt R(A); f(R); Sp<B> m = s; for (auto& v : m.v) { auto it = s2.v.find(v.first); e(v.second, it == s2.v.end() ? nullptr : &it->second); } sameVals(c, R, m, t + "/" + nm); };
  op("+=", [&](Mt& R) { R += Bm; }, [&](B& v, const B* b) { if (b) v += *b; });
  op("-=", [&](Mt& R) { R -= Bm; }, [&](B& v, const B* b) { if (b) v -= *b; });
  if constexpr (Dune::IsNumber<B>::value || requires(B b) { b.axpy(al, b); }) op("axpy", [&](Mt& R) { R.axpy(al, Bm); }, [&](B& v, const B* b) { if (b) { B w = *b; w *= al; v += w; } });
  op("*=", [&](Mt& R) { R *= al; }, [&](B& v, const B*) { v *= al; });
  op("/=", [&](Mt& R) { R *= K(12); R /= K(4); }, [&](B& v, const B*) { v *= K(3); });
  op("=scalar", [&](Mt& R) { R = al; }, [&](B& v, const B*) { v = al; });
  // directly on the (possibly individually allocated) original
  A.nonzeroes(); Mt keep(A); A *= al; Sp<B> m = s; for (auto& v : m.v) v.second *= al; sameVals(c, A, m, t + "/*=inplace"); A = keep; A -= keep; for (auto& v : m.v) v.second = B(0.0); sameVals(c, A, m, t + "/-=self"); sameVals(c, Bm, s2, t + "/operand-modified");
  if (s.v.size()) c.sig(str(t, modeName(mode), s.kind, s.N, "x", s.M, ":", s.v.size()));
}
typedef Dune::FieldVector<double, 1> V1; typedef Dune::FieldVector<double, 2> V2; typedef Dune::FieldVector<double, 3> V3;
typedef Dune::FieldVector<C, 2> CV2; typedef Dune::FieldVector<C, 3> CV3;
#if PART == 0
VGROUP("bcrs-double", 300*4, 20000*4) { bcrs<double, double, double>(c, "bcrs<double>"); }
VGROUP("bcrs-complex", 300*4, 20000*4) { bcrs<C, C, C>(c, "bcrs<complex>"); }
VGROUP("bcrs-f11", 300*4, 20000*4) { bcrs<Dune::FieldMatrix<double, 1, 1>, V1, V1>(c, "bcrs<f11>"); }
VGROUP("bcrs-f23", 300*4, 20000*4) { bcrs<Dune::FieldMatrix<double, 2, 3>, V3, V2>(c, "bcrs<f23>"); }
VGROUP("bcrs-c32", 300*4, 20000*4) { bcrs<Dune::FieldMatrix<C, 3, 2>, CV2, CV3>(c, "bcrs<c32>"); }
#endif
#if PART == 1
VGROUP("bcrs-sid2", 200*4, 10000*4) { bcrs<Dune::ScaledIdentityMatrix<double, 2>, V2, V2>(c, "bcrs<sid2>"); }
VGROUP("bcrs-csid3", 200*4, 10000*4) { bcrs<Dune::ScaledIdentityMatrix<C, 3>, CV3, CV3>(c, "bcrs<csid3>"); }
template<class Mt, class B, class V> void bdt(Case& c, bool tri, const std::string& t) {
  Rng& g = c.rng; using K = typename Blk<B>::K; size_t n = g.range(0, 8); Pattern p(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i == j || (tri && (i + 1 == j || j + 1 == i))) p[i].insert(j);
  auto s = Sp<B>::make(g, n, n, p, [](Rng& r) { return smallInt<K>(r); }); c.note(t + s.text()); Mt A(n); setValues(A, s); Dune::BlockVector<V> x(n), y(n); kernels(c, A, s.D, x, y, t); norms(c, A, s.D, offs(n, Blk<B>::n), offs(n, Blk<B>::m), t);
  Mt R(A); R *= K(3); Sp<B> m = s; for (auto& v : m.v) v.second *= K(3); sameVals(c, R, m, t + "/*="); R -= A; for (auto& v : m.v) v.second -= s.v[v.first]; sameVals(c, R, m, t + "/-="); R = K(2); for (auto& v : m.v) v.second = K(2); sameVals(c, R, m, t + "/=scalar"); sameVals(c, A, s, t + "/source");
  c.sig(str(t, n));
}
VGROUP("bd", 100*4, 4000*4) { bdt<Dune::BDMatrix<Dune::FieldMatrix<double, 2, 2>>, Dune::FieldMatrix<double, 2, 2>, V2>(c, false, "bd"); bdt<Dune::BDMatrix<C>, C, C>(c, false, "bdc"); }
VGROUP("btd", 100*4, 4000*4) { bdt<Dune::BTDMatrix<Dune::FieldMatrix<double, 2, 2>>, Dune::FieldMatrix<double, 2, 2>, V2>(c, true, "btd"); }
// dense-block matrix
template<class B, class XB, class YB> void dense(Case& c, const std::string& t) {
  Rng& g = c.rng; using K = typename Blk<B>::K; typedef Dune::Matrix<B> Mt; size_t N = g.range(1, 6), M = g.range(1, 6); Pattern p(N); for (auto& r : p) for (size_t j = 0; j < M; ++j) r.insert(j);
  auto mk = [&] { return Sp<B>::make(g, N, M, p, [](Rng& r) { return smallInt<K>(r); }); }; auto s = mk(), s2 = mk(); c.note(t + s.text());
  Mt A(N, M), Bm(N, M); setValues(A, s); setValues(Bm, s2);
  auto cmp = [&](const Mt& X, const DM<K>& D, const std::string& k) { DM<K> R(D.r, D.c); if (!c.check(X.N() * Blk<B>::n == D.r && X.M() * Blk<B>::m == D.c, k + "-size")) return; for (size_t i = 0; i < X.N(); ++i) for (size_t j = 0; j < X.M(); ++j) Blk<B>::put(X[i][j], R, i * Blk<B>::n, j * Blk<B>::m); c.check(R.a == D.a, k, str(show(R), " vs ", show(D))); };
  Dune::BlockVector<XB> x(M); Dune::BlockVector<YB> y(N); kernels(c, A, s.D, x, y, t); norms(c, A, s.D, offs(N, Blk<B>::n), offs(M, Blk<B>::m), t); cmp(A, s.D, t + "/const");
  K al = smallNZ<K>(g); { Mt R(A); R += Bm; cmp(R, s.D + s2.D, t + "/+="); } { Mt R(A); R -= Bm; cmp(R, s.D - s2.D, t + "/-="); } { Mt R(A); R *= al; cmp(R, al * s.D, t + "/*="); } { Mt R(A); R *= K(12); R /= K(4); cmp(R, K(3) * s.D, t + "/div"); }
  if constexpr (Dune::IsNumber<B>::value || Blk<B>::n == Blk<B>::m) {
    size_t L = g.range(1, 5); Pattern q(M); for (auto& r : q) for (size_t j = 0; j < L; ++j) r.insert(j); auto s3 = Sp<B>::make(g, M, L, q, [](Rng& r) { return smallInt<K>(r); }); Mt Cm(M, L); setValues(Cm, s3); auto P = A * Cm; cmp(P, s.D.mul(s3.D), t + "/product"); }
  { auto Tt = A.transpose(); if constexpr (std::is_same_v<B, K>) cmp(Tt, s.D.T(), t + "/transpose"); }
  c.sig(str(t, N, "x", M, c.index));
}
VGROUP("dense-double", 150*4, 6000*4) { dense<double, double, double>(c, "matrix<double>"); }
VGROUP("dense-complex", 150*4, 6000*4) { dense<C, C, C>(c, "matrix<complex>"); }
VGROUP("dense-f22", 150*4, 6000*4) { dense<Dune::FieldMatrix<double, 2, 2>, V2, V2>(c, "matrix<f22>"); }
VGROUP("dense-f23", 150*4, 6000*4) { dense<Dune::FieldMatrix<double, 2, 3>, V3, V2>(c, "matrix<f23>"); }
// scaled identity itself
template<class K, int n> void sid(Case& c, const std::string& t) {
  Rng& g = c.rng; typedef Dune::ScaledIdentityMatrix<K, n> Mt; K a = smallNZ<K>(g), b = smallNZ<K>(g); Mt A(a), Bm(b); auto D = a * DM<K>::id(n); c.note(str(t, " ", a)); Dune::FieldVector<K, n> x, y; kernels(c, A, D, x, y, t); norms(c, A, D, offs(1, n), offs(1, n), t);
  if constexpr (true) { double e = dabs(a); c.check(close(A.infinity_norm(), e), t + "/inf", str(A.infinity_norm())); }
  { Mt R(A); R += Bm; c.check(R.scalar() == a + b, t + "/+="); R -= Bm; c.check(R.scalar() == a, t + "/-="); R *= K(3); c.check(R.scalar() == K(3) * a, t + "/*="); R /= K(3); c.check(dabs(K(R.scalar() - a)) < 1e-14, t + "/div"); R += K(2); c.check(dabs(K(R.scalar() - a - K(2))) < 1e-14, t + "/+=k"); }
  c.check((A == Bm) == (a == b) && (A != Bm) == (a != b), t + "/=="); c.check((A * K(2)).scalar() == K(2) * a && (K(2) * A).scalar() == K(2) * a, t + "/binary*");
  auto xv = randVec<K>(g, n); assign(x, xv); A.solve(y, x); auto r = flatten<K>(y); for (auto& v : xv) v /= a; c.check(maxdiff(r, xv) < 1e-14, t + "/solve"); K det = K(1); for (int i = 0; i < n; ++i) det *= a; c.check(dabs(K(A.determinant() - det)) < 1e-12 * dabs(det), t + "/determinant"); { Mt I(A); I.invert(); c.check(dabs(K(I.scalar() * a - K(1))) < 1e-14, t + "/invert"); }
  c.check(A.N() == n && A.M() == n && A.exists(0, 0) && !A.exists(0, n > 1 ? 1 : 0) == (n > 1), t + "/size"); Dune::FieldMatrix<K, n, n> F; F = A; DM<K> R(n, n); Blk<Dune::FieldMatrix<K, n, n>>::put(F, R, 0, 0); c.check(R.a == D.a, t + "/to-dense");
  for (int i = 0; i < n; ++i) c.check(A[i][i] == a && A.diagonal(i) == a, t + "/[][]");
  size_t k = 0; for (auto i = A.begin(); i != A.end(); ++i) for (auto j = i->begin(); j != i->end(); ++j) { c.check(i.index() == j.index() && *j == a, t + "/iterate"); ++k; } c.check(k == n, t + "/iterate-count"); c.sig(str(t, a, b));
}
VGROUP("scaledid", 60*4, 1000*4) { sid<double, 3>(c, "sid<double,3>"); sid<C, 2>(c, "sid<complex,2>"); sid<double, 1>(c, "sid<double,1>");  }
#endif
#if PART == 2
// nested: sparse matrix of sparse matrices of dense blocks, inner shape uniform, inner patterns arbitrary
typedef Dune::FieldMatrix<double, 2, 1> F21; typedef Dune::BCRSMatrix<F21> Inn; typedef Dune::BCRSMatrix<Inn> Ou;
VGROUP("nested", 250*4, 10000*4) {
  Rng& g = c.rng; size_t N = g.range(1, 5), M = g.range(1, 5), n = g.range(1, 3), m = g.range(1, 3); Pattern P = randPattern(g, N, M); DM<double> D(N * n * 2, M * m); Ou A; { Sp<double> sp; sp.N = N; sp.M = M; sp.p = P; Ou T; int mode = g.pick({int(RowKnown), int(Random), int(RandomNnz), int(SetIdx), int(IdxSet), int(RowUnknown)}); buildPattern(A, sp, g, mode); c.note(str("nested ", modeName(mode), " ", N, "x", M, " inner ", n, "x", m)); }
  std::vector<std::pair<size_t, Sp<F21>>> in; for (size_t i = 0; i < N; ++i) for (auto j : P[i]) { auto s = Sp<F21>::rndNM(g, n, m); build(A[i][j], s, g); for (size_t a = 0; a < s.D.r; ++a) for (size_t b = 0; b < s.D.c; ++b) D(i * n * 2 + a, j * m + b) = s.D(a, b); }
  Dune::BlockVector<Dune::BlockVector<V1>> x(M); for (auto& v : x) v.resize(m); Dune::BlockVector<Dune::BlockVector<V2>> y(N); for (auto& v : y) v.resize(n);
  kernels(c, A, D, x, y, "nested"); double f2 = 0; for (auto v : D.a) f2 += v * v; c.check(close(A.frobenius_norm2(), f2), "nested/frobenius_norm2");
  double mx = 0; for (size_t i = 0; i < N; ++i) { double s = 0; for (size_t j = 0; j < M; ++j) { double b = 0; for (size_t a = 0; a < n; ++a) { double r = 0; for (size_t q = 0; q < m; ++q) r += std::max(std::abs(D((i * n + a) * 2, j * m + q)), std::abs(D((i * n + a) * 2 + 1, j * m + q))); b = std::max(b, r); } s += b; } mx = std::max(mx, s); }
  c.check(close(A.infinity_norm(), mx), "nested/infinity_norm", str(A.infinity_norm(), " vs ", mx)); c.check(close(A.infinity_norm_real(), mx), "nested/infinity_norm_real");
  auto toDense = [&](const Ou& B) { DM<double> R(D.r, D.c); for (auto i = B.begin(); i != B.end(); ++i) for (auto j = i->begin(); j != i->end(); ++j) for (auto k = j->begin(); k != j->end(); ++k) for (auto l = k->begin(); l != k->end(); ++l) Blk<F21>::put(*l, R, (i.index() * n + k.index()) * 2, j.index() * m + l.index()); return R; };
  { Ou B(A); c.check(toDense(B).a == D.a, "nested/copy"); B *= 3; c.check(toDense(B).a == (3.0 * D).a, "nested/*="); B -= A; c.check(toDense(B).a == (2.0 * D).a, "nested/-="); B.axpy(5, A); c.check(toDense(B).a == (7.0 * D).a, "nested/axpy"); c.check(toDense(A).a == D.a, "nested/copy-independent"); Ou E; E = B; B = A; c.check(toDense(E).a == (7.0 * D).a && toDense(B).a == D.a, "nested/assign"); }
  c.sig(c.desc + str(nnz(P)));
}
// mixed-type blocks
typedef Dune::BCRSMatrix<Dune::FieldMatrix<double, 2, 2>> M00; typedef Dune::BCRSMatrix<Dune::FieldMatrix<double, 2, 1>> M01; typedef Dune::BCRSMatrix<Dune::FieldMatrix<double, 1, 2>> M10; typedef Dune::BCRSMatrix<Dune::FieldMatrix<double, 1, 1>> M11;
typedef Dune::MultiTypeBlockMatrix<Dune::MultiTypeBlockVector<M00, M01>, Dune::MultiTypeBlockVector<M10, M11>> MT;
VGROUP("multitype", 250*4, 10000*4) {
  Rng& g = c.rng; using namespace Dune::Indices; size_t n0 = g.range(1, 5), n1 = g.range(1, 5), m0 = g.range(1, 5), m1 = g.range(1, 5); MT A; DM<double> D(2 * n0 + n1, 2 * m0 + m1);
  auto put = [&](auto& blk, auto s, size_t r0, size_t c0) { build(blk, s, g); for (size_t i = 0; i < s.D.r; ++i) for (size_t j = 0; j < s.D.c; ++j) D(r0 + i, c0 + j) = s.D(i, j); };
  put(A[_0][_0], Sp<M00::block_type>::rndNM(g, n0, m0), 0, 0); put(A[_0][_1], Sp<M01::block_type>::rndNM(g, n0, m1), 0, 2 * m0); put(A[_1][_0], Sp<M10::block_type>::rndNM(g, n1, m0), 2 * n0, 0); put(A[_1][_1], Sp<M11::block_type>::rndNM(g, n1, m1), 2 * n0, 2 * m0); c.note(str("multitype ", n0, n1, m0, m1));
  Dune::MultiTypeBlockVector<Dune::BlockVector<V2>, Dune::BlockVector<V1>> x, y; x[_0].resize(m0); x[_1].resize(m1); y[_0].resize(n0); y[_1].resize(n1);
  kernels(c, A, D, x, y, "multitype"); double f2 = 0; for (auto v : D.a) f2 += v * v; c.check(close(A.frobenius_norm2(), f2) && close(A.frobenius_norm(), std::sqrt(f2)), "multitype/frobenius");
  auto blk = [&](size_t r0, size_t br, size_t nr, size_t c0, size_t bc, size_t nc) { DM<double> S(br * nr, bc * nc); for (size_t i = 0; i < S.r; ++i) for (size_t j = 0; j < S.c; ++j) S(i, j) = D(r0 + i, c0 + j); return blockRowSum(S, offs(nr, br), offs(nc, bc), false); };
  double e = std::max(blk(0, 2, n0, 0, 2, m0) + blk(0, 2, n0, 2 * m0, 1, m1), blk(2 * n0, 1, n1, 0, 2, m0) + blk(2 * n0, 1, n1, 2 * m0, 1, m1)); c.check(close(A.infinity_norm(), e), "multitype/infinity_norm", str(A.infinity_norm(), " vs ", e)); c.check(close(A.infinity_norm_real(), e), "multitype/infinity_norm_real");
  auto toDense = [&](const MT& B) { DM<double> R(D.r, D.c); auto f = [&](auto& b, size_t r0, size_t c0) { using Bl = typename std::decay_t<decltype(b)>::block_type; for (auto i = b.begin(); i != b.end(); ++i) for (auto j = i->begin(); j != i->end(); ++j) Blk<Bl>::put(*j, R, r0 + i.index() * Blk<Bl>::n, c0 + j.index() * Blk<Bl>::m); }; f(B[_0][_0], 0, 0); f(B[_0][_1], 0, 2 * m0); f(B[_1][_0], 2 * n0, 0); f(B[_1][_1], 2 * n0, 2 * m0); return R; };
  { MT B(A); c.check(toDense(B).a == D.a, "multitype/copy"); B *= 3; c.check(toDense(B).a == (3.0 * D).a, "multitype/*="); B -= A; c.check(toDense(B).a == (2.0 * D).a, "multitype/-="); B += A; B += A; c.check(toDense(B).a == (4.0 * D).a, "multitype/+="); B /= 4; c.check(toDense(B).a == D.a, "multitype/div"); c.check(toDense(A).a == D.a, "multitype/independent"); }
  c.sig(c.desc + str(c.index));
}
// SIMD lanes: each lane is an independent scalar problem
typedef Dune::LoopSIMD<double, 4> S4;
VGROUP("simd", 200*4, 6000*4) {
  Rng& g = c.rng; size_t N = g.range(1, 7), M = g.range(1, 7); Pattern p = randPattern(g, N, M); std::vector<DM<double>> D(4, DM<double>(N, M)); typedef Dune::BCRSMatrix<S4> Mt; Mt A; Sp<double> sp; sp.N = N; sp.M = M; sp.p = p; buildPattern(A, sp, g, g.pick({int(RowKnown), int(Random), int(IdxSet), int(RowUnknown)}));
  for (size_t i = 0; i < N; ++i) for (auto j : p[i]) { S4 v; for (int l = 0; l < 4; ++l) v[l] = D[l](i, j) = g.range(-3, 3); A[i][j] = v; } c.note(str("simd ", N, "x", M, " nnz ", nnz(p)));
  Dune::BlockVector<S4> x(M), y(N); std::vector<std::vector<double>> xv(4), yv(4); for (int l = 0; l < 4; ++l) { xv[l] = randVec<double>(g, M); yv[l] = randVec<double>(g, N); } S4 al; for (int l = 0; l < 4; ++l) al[l] = g.range(1, 3);
  auto load = [&] { for (int l = 0; l < 4; ++l) { for (size_t i = 0; i < M; ++i) x[i][l] = xv[l][i]; for (size_t i = 0; i < N; ++i) y[i][l] = yv[l][i]; } };
  auto chk = [&](const char* k, const Dune::BlockVector<S4>& r, auto&& e) { for (int l = 0; l < 4; ++l) { auto ev = e(l); bool ok = ev.size() == r.size(); for (size_t i = 0; ok && i < r.size(); ++i) ok = r[i][l] == ev[i]; c.check(ok, str("simd/", k), str("lane ", l)); } };
  load(); A.mv(x, y); chk("mv", y, [&](int l) { return D[l].mul(xv[l]); }); load(); A.umv(x, y); chk("umv", y, [&](int l) { return axpy(1.0, D[l].mul(xv[l]), yv[l]); }); load(); A.mmv(x, y); chk("mmv", y, [&](int l) { return axpy(-1.0, D[l].mul(xv[l]), yv[l]); }); load(); A.usmv(al, x, y); chk("usmv", y, [&](int l) { return axpy(double(al[l]), D[l].mul(xv[l]), yv[l]); });
  load(); A.mtv(y, x); chk("mtv", x, [&](int l) { return D[l].T().mul(yv[l]); }); load(); A.umtv(y, x); chk("umtv", x, [&](int l) { return axpy(1.0, D[l].T().mul(yv[l]), xv[l]); }); load(); A.usmtv(al, y, x); chk("usmtv", x, [&](int l) { return axpy(double(al[l]), D[l].T().mul(yv[l]), xv[l]); });
  auto f = A.frobenius_norm2(); auto n = A.infinity_norm(); for (int l = 0; l < 4; ++l) { double f2 = 0; for (auto v : D[l].a) f2 += v * v; c.check(close(f[l], f2), "simd/frobenius"); double e = blockRowSum(D[l], offs(N, 1), offs(M, 1), false); c.check(close(n[l], e), "simd/infinity_norm", str(double(n[l]), " vs ", e)); } c.sig(c.desc + str(c.index));
}
// integer fields use the variant without NaN propagation
VGROUP("int-matrix", 60*4, 500*4) {
  Rng& g = c.rng; size_t N = g.range(1, 5), M = g.range(1, 5); Dune::Matrix<int> A(N, M); DM<double> D(N, M); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) { A[i][j] = g.range(-5, 5); D(i, j) = A[i][j]; } c.check(A.infinity_norm() == int(blockRowSum(D, offs(N, 1), offs(M, 1), false)), "int/infinity_norm", str(A.infinity_norm())); c.check(A.infinity_norm_real() == int(blockRowSum(D, offs(N, 1), offs(M, 1), false)), "int/infinity_norm_real");
  Dune::BCRSMatrix<int> S; Sp<double> sp; sp.N = N; sp.M = M; sp.p = randPattern(g, N, M); DM<double> E(N, M); buildPattern(S, sp, g, Random); for (size_t i = 0; i < N; ++i) for (auto j : sp.p[i]) { S[i][j] = g.range(-5, 5); E(i, j) = S[i][j]; } c.check(S.infinity_norm() == int(blockRowSum(E, offs(N, 1), offs(M, 1), false)), "int/bcrs-infinity_norm"); c.check(S.infinity_norm_real() == int(blockRowSum(E, offs(N, 1), offs(M, 1), false)), "int/bcrs-infinity_norm_real"); c.sig(str(N, M, c.index));
}
// NaN must surface in the norms
VGROUP("nan-norm", 60*4, 500*4) {
  Rng& g = c.rng; auto s = Sp<double>::rndNM(g, g.range(1, 6), g.range(1, 6), true, true); Dune::BCRSMatrix<double> A; build(A, s, g); auto it = s.v.begin(); std::advance(it, g.range(0, s.v.size() - 1)); A[it->first.first][it->first.second] = NAN; c.check(std::isnan(A.infinity_norm()), "nan/bcrs-infinity_norm"); c.check(std::isnan(A.infinity_norm_real()), "nan/bcrs-infinity_norm_real"); c.check(std::isnan(A.frobenius_norm()), "nan/bcrs-frobenius");
  Dune::Matrix<double> Dm(3, 4); Dm = 1.0; Dm[g.range(0, 2)][g.range(0, 3)] = NAN; c.check(std::isnan(Dm.infinity_norm()), "nan/matrix-infinity_norm"); c.check(std::isnan(Dm.infinity_norm_real()), "nan/matrix-infinity_norm_real"); c.sig(str(it->first.first, ",", it->first.second, s.N, s.M));
}
#endif
