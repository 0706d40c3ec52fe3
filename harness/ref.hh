// Independent dense reference model and generators. Nothing here calls ISTL arithmetic.
#ifndef VH_REF_HH
#define VH_REF_HH
#include "config.h"
#include <vector>
#include <map>
#include <set>
#include <complex>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/common/typetraits.hh>
#include <dune/common/hybridutilities.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/scaledidmatrix.hh>
#include <dune/istl/matrixindexset.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include "vh.hh"

namespace ref {
using std::size_t;
template<class K> struct isC : std::false_type {};
template<class R> struct isC<std::complex<R>> : std::true_type {};
template<class K> K conj_(const K& k) { if constexpr (isC<K>::value) return std::conj(k); else return k; }
template<class K> auto abs_(const K& k) { using std::abs; return abs(k); }
template<class K> double dabs(const K& k) { using std::abs; return double(abs(k)); }
template<class K> double dabs1(const K& k) { if constexpr (isC<K>::value) return double(std::abs(k.real()) + std::abs(k.imag())); else return std::abs(double(k)); }
template<class K> double dabs2(const K& k) { if constexpr (isC<K>::value) return double(k.real()) * double(k.real()) + double(k.imag()) * double(k.imag()); else return double(k) * double(k); }

template<class K> struct DM {
  size_t r = 0, c = 0; std::vector<K> a;
  DM() {} DM(size_t r_, size_t c_) : r(r_), c(c_), a(r_ * c_, K(0)) {}
  K& operator()(size_t i, size_t j) { return a[i * c + j]; }
  const K& operator()(size_t i, size_t j) const { return a[i * c + j]; }
  DM T() const { DM t(c, r); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) t(j, i) = (*this)(i, j); return t; }
  DM H() const { DM t(c, r); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) t(j, i) = conj_((*this)(i, j)); return t; }
  std::vector<K> mul(const std::vector<K>& x) const { std::vector<K> y(r, K(0)); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) y[i] += (*this)(i, j) * x[j]; return y; }
  DM mul(const DM& B) const { DM C(r, B.c); for (size_t i = 0; i < r; ++i) for (size_t k = 0; k < c; ++k) { K v = (*this)(i, k); if (v == K(0)) continue; for (size_t j = 0; j < B.c; ++j) C(i, j) += v * B(k, j); } return C; }
  static DM id(size_t n) { DM t(n, n); for (size_t i = 0; i < n; ++i) t(i, i) = K(1); return t; }
};
template<class K> DM<K> operator+(DM<K> a, const DM<K>& b) { for (size_t i = 0; i < a.a.size(); ++i) a.a[i] += b.a[i]; return a; }
template<class K> DM<K> operator-(DM<K> a, const DM<K>& b) { for (size_t i = 0; i < a.a.size(); ++i) a.a[i] -= b.a[i]; return a; }
template<class K> DM<K> operator*(K s, DM<K> a) { for (auto& x : a.a) x *= s; return a; }
// LU with partial pivoting; returns false when numerically singular
template<class K> bool solve(DM<K> A, std::vector<K> b, std::vector<K>& x) {
  size_t n = A.r; double mx = 0; for (auto& v : A.a) mx = std::max(mx, dabs(v));
  for (size_t k = 0; k < n; ++k) {
    size_t p = k; for (size_t i = k + 1; i < n; ++i) if (dabs(A(i, k)) > dabs(A(p, k))) p = i;
    if (!(dabs(A(p, k)) > 1e-13 * mx)) return false;
    if (p != k) { for (size_t j = 0; j < n; ++j) std::swap(A(p, j), A(k, j)); std::swap(b[p], b[k]); }
    for (size_t i = k + 1; i < n; ++i) { K f = A(i, k) / A(k, k); if (f == K(0)) continue; for (size_t j = k; j < n; ++j) A(i, j) -= f * A(k, j); b[i] -= f * b[k]; }
  }
  x.assign(n, K(0));
  for (size_t k = n; k-- > 0;) { K s = b[k]; for (size_t j = k + 1; j < n; ++j) s -= A(k, j) * x[j]; x[k] = s / A(k, k); }
  return true;
}
template<class K> bool inverse(const DM<K>& A, DM<K>& I) {
  size_t n = A.r; I = DM<K>(n, n); std::vector<K> e(n), x;
  for (size_t j = 0; j < n; ++j) { std::fill(e.begin(), e.end(), K(0)); e[j] = K(1); if (!solve(A, e, x)) return false; for (size_t i = 0; i < n; ++i) I(i, j) = x[i]; }
  return true;
}
template<class K> double norm2(const std::vector<K>& v) { double s = 0; for (auto& x : v) s += dabs2(x); return std::sqrt(s); }
template<class K> double maxabs(const std::vector<K>& v) { double s = 0; for (auto& x : v) s = std::max(s, dabs(x)); return s; }
template<class K> double maxdiff(const std::vector<K>& a, const std::vector<K>& b) { if (a.size() != b.size()) return 1e300; double s = 0; for (size_t i = 0; i < a.size(); ++i) { double d = dabs(K(a[i] - b[i])); if (!(d <= s)) s = d; } return s; }
template<class K> bool finite(const std::vector<K>& a) { for (auto& x : a) if (!std::isfinite(dabs1(x))) return false; return true; }
// symmetric Jacobi eigenvalues
inline std::vector<double> symeig(DM<double> A) {
  size_t n = A.r;
  for (int sweep = 0; sweep < 100; ++sweep) {
    double off = 0, tot = 0; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { tot += A(i, j) * A(i, j); if (i != j) off += A(i, j) * A(i, j); }
    if (off <= 1e-26 * tot) break;
    for (size_t p = 0; p < n; ++p) for (size_t q = p + 1; q < n; ++q) {
      if (A(p, q) == 0) continue;
      double th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1.0 : -1.0) / (std::abs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
      for (size_t k = 0; k < n; ++k) { double x = A(k, p), y = A(k, q); A(k, p) = c * x - s * y; A(k, q) = s * x + c * y; }
      for (size_t k = 0; k < n; ++k) { double x = A(p, k), y = A(q, k); A(p, k) = c * x - s * y; A(q, k) = s * x + c * y; }
    }
  }
  std::vector<double> e(n); for (size_t i = 0; i < n; ++i) e[i] = A(i, i); std::sort(e.begin(), e.end()); return e;
}
template<class K> std::string show(const std::vector<K>& v, size_t n = 8) { std::ostringstream o; o.precision(10); o << "[" << v.size() << "]("; for (size_t i = 0; i < v.size() && i < n; ++i) o << (i ? " " : "") << v[i]; if (v.size() > n) o << " .."; o << ")"; return o.str(); }
template<class K> std::string show(const DM<K>& A, size_t n = 40) { std::ostringstream o; o << A.r << "x" << A.c << "{"; for (size_t i = 0, k = 0; i < A.r; ++i) { for (size_t j = 0; j < A.c && k < n; ++j, ++k) o << A(i, j) << " "; o << ";"; } o << "}"; return o.str(); }

// ---- scalars -----------------------------------------------------------------------------------
template<class K> K smallInt(vh::Rng& r, long m = 3) { if constexpr (isC<K>::value) { using R = typename K::value_type; return K(R(r.range(-m, m)), R(r.range(-m, m))); } else return K(r.range(-m, m)); }
template<class K> K smallNZ(vh::Rng& r, long m = 3) { K k; do k = smallInt<K>(r, m); while (k == K(0)); return k; }
template<class K> K realVal(vh::Rng& r) { if constexpr (isC<K>::value) { using R = typename K::value_type; return K(R(r.real(-1, 1)), R(r.real(-1, 1))); } else return K(r.real(-1, 1)); }

// ---- block description: static dims of a block type, densify ------------------------------------
template<class T> struct Blk { // scalar
  using K = T; static constexpr int n = 1, m = 1;
  static void put(const T& b, DM<K>& D, size_t r, size_t c) { D(r, c) = b; }
  static T make(vh::Rng& g, DM<K>& D, size_t r, size_t c, const std::function<K(vh::Rng&)>& f) { D(r, c) = f(g); return D(r, c); }
};
template<class K_, int N, int M> struct Blk<Dune::FieldMatrix<K_, N, M>> {
  using K = K_; static constexpr int n = N, m = M; using T = Dune::FieldMatrix<K, N, M>;
  static void put(const T& b, DM<K>& D, size_t r, size_t c) { for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) D(r + i, c + j) = b[i][j]; }
  static T make(vh::Rng& g, DM<K>& D, size_t r, size_t c, const std::function<K(vh::Rng&)>& f) { T b; for (int i = 0; i < N; ++i) for (int j = 0; j < M; ++j) { b[i][j] = f(g); D(r + i, c + j) = b[i][j]; } return b; }
};
template<class K_, int N> struct Blk<Dune::ScaledIdentityMatrix<K_, N>> {
  using K = K_; static constexpr int n = N, m = N; using T = Dune::ScaledIdentityMatrix<K, N>;
  static void put(const T& b, DM<K>& D, size_t r, size_t c) { for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) D(r + i, c + j) = i == j ? b.scalar() : K(0); }
  static T make(vh::Rng& g, DM<K>& D, size_t r, size_t c, const std::function<K(vh::Rng&)>& f) { K s = f(g); for (int i = 0; i < N; ++i) D(r + i, c + i) = s; return T(s); }
};
template<class K_, int N> struct Blk<Dune::DiagonalMatrix<K_, N>> {
  using K = K_; static constexpr int n = N, m = N; using T = Dune::DiagonalMatrix<K, N>;
  static void put(const T& b, DM<K>& D, size_t r, size_t c) { for (int i = 0; i < N; ++i) D(r + i, c + i) = b.diagonal(i); }
  static T make(vh::Rng& g, DM<K>& D, size_t r, size_t c, const std::function<K(vh::Rng&)>& f) { T b; for (int i = 0; i < N; ++i) { b.diagonal(i) = f(g); D(r + i, c + i) = b.diagonal(i); } return b; }
};

// ---- vectors -----------------------------------------------------------------------------------
template<class V> struct isMTV : std::false_type {};
template<class... T> struct isMTV<Dune::MultiTypeBlockVector<T...>> : std::true_type {};
template<class V, class K> void flat(const V& v, std::vector<K>& out) {
  if constexpr (Dune::IsNumber<V>::value) out.push_back(v);
  else if constexpr (isMTV<V>::value) Dune::Hybrid::forEach(v, [&](auto&& b) { flat(b, out); });
  else for (size_t i = 0; i < v.size(); ++i) flat(v[i], out);
}
template<class K, class V> std::vector<K> flatten(const V& v) { std::vector<K> o; flat(v, o); return o; }
template<class V, class K> void unflat(V& v, const std::vector<K>& in, size_t& p) {
  if constexpr (Dune::IsNumber<V>::value) v = in[p++];
  else if constexpr (isMTV<V>::value) Dune::Hybrid::forEach(v, [&](auto&& b) { unflat(b, in, p); });
  else for (size_t i = 0; i < v.size(); ++i) unflat(v[i], in, p);
}
template<class V, class K> void assign(V& v, const std::vector<K>& in) { size_t p = 0; unflat(v, in, p); }
template<class K> std::vector<K> randVec(vh::Rng& r, size_t n, bool ints = true) { std::vector<K> v(n); for (auto& x : v) x = ints ? smallInt<K>(r) : realVal<K>(r); return v; }

// ---- sparse patterns -----------------------------------------------------------------------------
using Pattern = std::vector<std::set<size_t>>;
inline size_t nnz(const Pattern& p) { size_t s = 0; for (auto& r : p) s += r.size(); return s; }
inline Pattern randPattern(vh::Rng& g, size_t N, size_t M, bool diag = false, std::string* kind = nullptr) {
  Pattern p(N); long k = g.range(0, 8); std::string nm;
  if (M > 0) switch (k) {
    case 0: case 1: { nm = "rand"; double d = g.pick({0.05, 0.15, 0.3, 0.6}); for (auto& r : p) for (size_t j = 0; j < M; ++j) if (g.coin(d)) r.insert(j); break; }
    case 2: { nm = "band"; long w = g.range(0, 3); for (size_t i = 0; i < N; ++i) for (long j = long(i) - w; j <= long(i) + w; ++j) if (j >= 0 && j < long(M)) p[i].insert(j); break; }
    case 3: { nm = "arrow"; for (size_t i = 0; i < N; ++i) { if (i < M) p[i].insert(i); p[i].insert(M - 1); } if (N) for (size_t j = 0; j < M; ++j) p[N - 1].insert(j); break; }
    case 4: { nm = "full"; for (auto& r : p) for (size_t j = 0; j < M; ++j) r.insert(j); break; }
    case 5: { nm = "someempty"; for (auto& r : p) if (g.coin(0.5)) for (size_t j = 0; j < M; ++j) if (g.coin(0.3)) r.insert(j); break; }
    case 6: { nm = "none"; break; }
    case 7: { nm = "onerow"; if (N) { auto& r = p[g.range(0, N - 1)]; for (size_t j = 0; j < M; ++j) if (g.coin(0.7)) r.insert(j); } break; }
    case 8: { nm = "perrow"; for (auto& r : p) for (long t = g.range(0, 4); t > 0; --t) r.insert(g.range(0, M - 1)); break; }
  }
  if (diag) for (size_t i = 0; i < N && i < M; ++i) p[i].insert(i);
  if (kind) *kind = nm.empty() ? "nocols" : nm;
  return p;
}
// structurally symmetric pattern with diagonal, connected-ish graph
inline Pattern symPattern(vh::Rng& g, size_t N, std::string* kind = nullptr) {
  Pattern p(N); for (size_t i = 0; i < N; ++i) p[i].insert(i);
  auto add = [&](size_t i, size_t j) { p[i].insert(j); p[j].insert(i); };
  long k = g.range(0, 4); static const char* nm[] = {"tri", "rand", "grid", "tree", "arrow"}; if (kind) *kind = nm[k];
  if (N > 1) switch (k) {
    case 0: for (size_t i = 0; i + 1 < N; ++i) add(i, i + 1); break;
    case 1: for (size_t i = 0; i < N; ++i) for (long t = g.range(0, 3); t > 0; --t) add(i, g.range(0, N - 1)); break;
    case 2: { size_t w = std::max<long>(1, g.range(2, 6)); for (size_t i = 0; i < N; ++i) { if (i % w + 1 < w && i + 1 < N) add(i, i + 1); if (i + w < N) add(i, i + w); } break; }
    case 3: for (size_t i = 1; i < N; ++i) add(i, g.range(0, i - 1)); break;
    case 4: for (size_t i = 0; i + 1 < N; ++i) add(i, N - 1); break;
  }
  return p;
}

// A sparse block matrix in model form: pattern + blocks (created together with the dense expansion)
template<class B> struct Sp {
  using K = typename Blk<B>::K; size_t N = 0, M = 0; Pattern p; std::map<std::pair<size_t, size_t>, B> v; DM<K> D; std::string kind;
  static Sp make(vh::Rng& g, size_t N, size_t M, const Pattern& p, const std::function<K(vh::Rng&)>& f) {
    Sp s; s.N = N; s.M = M; s.p = p; s.D = DM<K>(N * Blk<B>::n, M * Blk<B>::m);
    for (size_t i = 0; i < N; ++i) for (size_t j : p[i]) s.v[{i, j}] = Blk<B>::make(g, s.D, i * Blk<B>::n, j * Blk<B>::m, f);
    return s;
  }
  static Sp rnd(vh::Rng& g, size_t maxN, bool ints = true) { size_t N = g.coin(0.08) ? 0 : g.range(1, maxN), M = g.coin(0.06) ? 0 : g.range(1, maxN); return rndNM(g, N, M, ints); }
  static Sp rndNM(vh::Rng& g, size_t N, size_t M, bool ints = true, bool diag = false) { std::string k; auto p = randPattern(g, N, M, diag, &k); Sp s = make(g, N, M, p, [ints](vh::Rng& r) { return ints ? smallInt<K>(r) : realVal<K>(r); }); s.kind = k; return s; }
  void rebuildDense() { D = DM<K>(N * Blk<B>::n, M * Blk<B>::m); for (auto& e : v) Blk<B>::put(e.second, D, e.first.first * Blk<B>::n, e.first.second * Blk<B>::m); }
  std::string text() const { std::ostringstream o; o << N << "x" << M << " " << kind << " nnz=" << v.size(); if (v.size() <= 12) { o << " {"; for (auto& e : v) o << "(" << e.first.first << "," << e.first.second << ")"; o << "}"; } return o.str(); }
};

// Build modes for BCRSMatrix. All leave a matrix with exactly the model's pattern; values set afterwards via operator[].
enum Mode { RowKnown, RowUnknown, Random, RandomNnz, SetIdx, Implicit, IdxSet, NModes };
inline const char* modeName(int m) { static const char* n[] = {"row-known", "row-unknown", "random", "random-nnz", "setIndices", "implicit", "indexset"}; return n[m]; }
template<class Mat, class S> void buildPattern(Mat& A, const S& s, vh::Rng& g, int mode) {
  using B = typename Mat::block_type;
  size_t nz = nnz(s.p);
  std::vector<std::pair<size_t, size_t>> e; for (size_t i = 0; i < s.N; ++i) for (auto j : s.p[i]) e.push_back({i, j});
  g.shuffle(e);
  switch (mode) {
    case RowKnown: case RowUnknown:
      A.setBuildMode(Mat::row_wise); if (mode == RowKnown) A.setSize(s.N, s.M, nz + (g.coin(0.3) ? g.range(0, 5) : 0)); else A.setSize(s.N, s.M);
      for (auto it = A.createbegin(); it != A.createend(); ++it) { std::vector<size_t> c(s.p[it.index()].begin(), s.p[it.index()].end()); g.shuffle(c); for (auto j : c) it.insert(j); if (!c.empty() && g.coin(0.2)) it.insert(c[0]); }
      break;
    case Random: case RandomNnz: case SetIdx:
      A.setBuildMode(Mat::random); if (mode == RandomNnz) A.setSize(s.N, s.M, nz); else A.setSize(s.N, s.M);
      for (size_t i = 0; i < s.N; ++i) { if (g.coin()) A.setrowsize(i, s.p[i].size()); else for (size_t k = 0; k < s.p[i].size(); ++k) A.incrementrowsize(i); }
      A.endrowsizes();
      if (mode == SetIdx) for (size_t i = 0; i < s.N; ++i) { std::vector<size_t> c(s.p[i].begin(), s.p[i].end()); if (g.coin()) A.setIndicesNoSort(i, c.begin(), c.end()); else { g.shuffle(c); A.setIndices(i, c.begin(), c.end()); } }
      else for (auto& x : e) { A.addindex(x.first, x.second); if (g.coin(0.1)) A.addindex(x.first, x.second); }
      A.endindices(); break;
    case Implicit: {
      size_t mx = 0; for (auto& r : s.p) mx = std::max(mx, r.size());
      size_t avg = std::max<size_t>(1, g.coin() ? mx : (s.N ? (nz + s.N - 1) / s.N : 1));
      A.setBuildMode(Mat::implicit); A.setImplicitBuildModeParameters(avg, avg >= mx ? g.pick({0.0, 0.3, 2.0}) : 3.0 + double(mx) / double(avg));
      A.setSize(s.N, s.M); for (auto& x : e) { auto& en = A.entry(x.first, x.second); if constexpr (requires { en = 0.0; } && !requires { en.buildStage(); }) en = 0.0; } A.compress(); break; }
    case IdxSet: {
      Dune::MatrixIndexSet is(s.N, s.M); for (auto& x : e) is.add(x.first, x.second);
      is.exportIdx(A); break; }
  }
}
template<class Mat, class S> void setValues(Mat& A, const S& s) { for (auto& e : s.v) A[e.first.first][e.first.second] = e.second; }
template<class Mat, class S> int build(Mat& A, const S& s, vh::Rng& g, int mode = -1) { if (mode < 0) mode = g.range(0, NModes - 1); buildPattern(A, s, g, mode); setValues(A, s); return mode; }
template<class Mat, class S> Mat built(const S& s, vh::Rng& g, int mode = -1) { Mat A; build(A, s, g, mode); return A; }

// compare an ISTL sparse matrix with its model completely through its public interface
template<class Mat, class S> std::string compare(const Mat& A, const S& s) {
  using B = typename Mat::block_type;
  if (A.N() != s.N || A.M() != s.M) return vh::str("size ", A.N(), "x", A.M(), " expected ", s.N, "x", s.M);
  if (A.buildStage() != Mat::built) return "not in built stage";
  if (A.nonzeroes() != s.v.size()) return vh::str("nonzeroes() ", A.nonzeroes(), " expected ", s.v.size());
  size_t rows = 0;
  for (auto i = A.begin(); i != A.end(); ++i, ++rows) {
    if (i.index() != rows) return vh::str("row index ", i.index(), " at position ", rows);
    auto& p = s.p[rows]; auto pi = p.begin();
    if (A.getrowsize(rows) != p.size() || i->size() != p.size()) return vh::str("row ", rows, " size ", i->size(), " expected ", p.size());
    for (auto j = i->begin(); j != i->end(); ++j, ++pi) {
      if (pi == p.end()) return vh::str("row ", rows, " too long");
      if (j.index() != *pi) return vh::str("row ", rows, " column ", j.index(), " expected ", *pi);
      const B& e = s.v.at({rows, *pi});
      if (!(*j == e)) return vh::str("value at (", rows, ",", *pi, ") differs");
    }
    if (pi != p.end()) return vh::str("row ", rows, " too short");
    for (size_t j = 0; j < s.M; ++j) {
      bool ex = p.count(j);
      if (A.exists(rows, j) != ex) return vh::str("exists(", rows, ",", j, ")=", A.exists(rows, j));
      auto f = A[rows].find(j);
      if ((f != A[rows].end()) != ex) return vh::str("find(", rows, ",", j, ")");
      if (ex && (f.index() != j || !(*f == s.v.at({rows, j})) || !(A[rows][j] == s.v.at({rows, j})))) return vh::str("find/[] value (", rows, ",", j, ")");
    }
    // backwards
    auto rp = p.rbegin(); auto j = i->beforeEnd();
    if (i->size()) for (; j != i->beforeBegin(); --j, ++rp) { if (rp == p.rend()) return vh::str("row ", rows, " backwards too long"); if (j.index() != *rp) return vh::str("row ", rows, " backwards column ", j.index(), " expected ", *rp); }
  }
  if (rows != s.N) return "row count";
  return "";
}
} // namespace ref
#endif
