// C10: direct solvers return the solution of the system they were given, for every history.
#include "ref.hh"
#include "track.hh"
#include <bitset>
#include <dune/common/parametertree.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/btdmatrix.hh>
#include "vh.hh"
using namespace Dune; using namespace ref;
template<class K> double epsOf() { if constexpr (isC<K>::value) return std::numeric_limits<typename K::value_type>::epsilon(); else return std::numeric_limits<K>::epsilon(); }
template<class B, class A = std::allocator<B>> using Mat = BCRSMatrix<B, A>;
enum Kind { General, SymInd, Spd };
static const char* kn[] = {"general", "symmetric", "spd"};

template<class B> struct Sys { using K = typename Blk<B>::K; Sp<B> s; Mat<B> A; DM<K> D; int mode; std::string text; };
template<class B> B transposed(const B& b) { if constexpr (Dune::IsNumber<B>::value) return b; else { B t; for (size_t i = 0; i < size_t(Blk<B>::n); ++i) for (size_t j = 0; j < size_t(Blk<B>::m); ++j) t[i][j] = b[j][i]; return t; } }
template<class B> auto& el(B& b, size_t i, size_t j) { if constexpr (Dune::IsNumber<B>::value) return b; else return b[i][j]; }

template<class B> std::unique_ptr<Sys<B>> gen(vh::Rng& g, int kind, long maxN) {
  using K = typename Blk<B>::K; constexpr size_t n = Blk<B>::n, m = Blk<B>::m;
  auto S = std::make_unique<Sys<B>>();
  for (int attempt = 0; attempt < 20; ++attempt) {
    size_t N, M;
    if constexpr (n == m) { N = M = g.range(1, maxN); } else { size_t q = g.range(1, 3); N = m * q; M = n * q; }
    if (kind == General) {
      std::string kname; Pattern p = randPattern(g, N, M, false, &kname);
      std::vector<size_t> perm(std::max(N, M)); for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
      bool permd = g.coin(); if (permd) g.shuffle(perm);
      if constexpr (n == m) for (size_t i = 0; i < N; ++i) p[i].insert(perm[i]);
      else for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) if (g.coin(0.8)) p[i].insert(j);
      S->s = Sp<B>::make(g, N, M, p, [](vh::Rng& r) { return realVal<K>(r); });
      if constexpr (n == m) { double w = g.pick({0.0, 2.0, 4.0}); for (size_t i = 0; i < N; ++i) { B& b = S->s.v[{i, perm[i]}]; for (size_t k = 0; k < n; ++k) el(b, k, k) += K(w); } }
      if (g.coin(0.25)) for (auto& e : S->s.v) for (size_t k = 0; k < n; ++k) for (size_t l = 0; l < m; ++l) if (g.coin(0.3)) el(e.second, k, l) = K(0);  // stored zeros
      if (g.coin(0.2)) { std::vector<double> sc(N); for (auto& x : sc) x = std::pow(10.0, g.range(-2, 2)); for (auto& e : S->s.v) e.second *= K(sc[e.first.first]); }
      S->text = kname + (permd ? " permuted" : "");
    } else {
      if constexpr (n == m) {
        std::string kname; Pattern p = symPattern(g, N, &kname); S->s = Sp<B>(); S->s.N = S->s.M = N; S->s.p = p; S->s.D = DM<K>(N * n, N * n);
        std::vector<double> rs(N * n, 0);
        for (size_t i = 0; i < N; ++i) for (size_t j : p[i]) if (j >= i) { B b = Blk<B>::make(g, S->s.D, i * n, j * n, [](vh::Rng& r) { return realVal<K>(r); });
          if (i == j) for (size_t k = 0; k < n; ++k) for (size_t l = 0; l < k; ++l) el(b, k, l) = el(b, l, k);
          S->s.v[{i, j}] = b; if (i != j) S->s.v[{j, i}] = transposed(b); }
        S->s.rebuildDense(); for (size_t i = 0; i < N * n; ++i) { for (size_t j = 0; j < N * n; ++j) if (i != j) rs[i] += dabs(S->s.D(i, j)); }
        for (size_t i = 0; i < N; ++i) { B& b = S->s.v[{i, i}]; for (size_t k = 0; k < n; ++k) el(b, k, k) = K((rs[i * n + k] + g.real(0.1, 2)) * (kind == Spd || g.coin() ? 1.0 : -1.0)); }
        S->text = kname;
      }
    }
    S->s.rebuildDense(); S->D = S->s.D;
    if (S->D.r != S->D.c) continue;
    DM<K> I; if (!inverse(S->D, I)) continue;
    double a = 0, b = 0; for (auto& v : S->D.a) a = std::max(a, dabs(v)); for (auto& v : I.a) b = std::max(b, dabs(v));
    if (a * b * double(S->D.r) > (epsOf<K>() > 1e-10 ? 1e3 : 1e7)) continue;
    S->mode = build(S->A, S->s, g); S->text = vh::str(kn[kind], " ", N, "x", M, " ", S->text, " nnz=", S->s.v.size());
    return S;
  }
  return nullptr;
}
// normwise backward error and (for the moderately conditioned systems generated here) forward agreement
template<class K> bool solved(vh::Case& c, const DM<K>& D, const std::vector<K>& x, const std::vector<K>& b, const char* key, double fac = 1) {
  std::vector<K> r = D.mul(x); double nA = 0; for (size_t i = 0; i < D.r; ++i) { double s = 0; for (size_t j = 0; j < D.c; ++j) s += dabs(D(i, j)); nA = std::max(nA, s); }
  for (size_t i = 0; i < r.size(); ++i) r[i] -= b[i];
  double tol = 1e4 * fac * epsOf<K>() * double(D.r + 3) * (nA * maxabs(x) + maxabs(b));
  bool ok = finite(x) && maxabs(r) <= tol;
  std::string det; if (!ok) { std::vector<K> e; solve(D, b, e); det = vh::str("residual ", maxabs(r), " tolerance ", tol, " x=", show(x), " expected ", show(e), " rhs ", show(b)); }
  return c.check(ok, key, det);
}
template<class K> DM<K> sub(const DM<K>& D, const std::vector<size_t>& idx) { DM<K> R(idx.size(), idx.size()); for (size_t i = 0; i < idx.size(); ++i) for (size_t j = 0; j < idx.size(); ++j) R(i, j) = D(idx[i], idx[j]); return R; }
template<class K> bool wellc(const DM<K>& D) { DM<K> I; if (!inverse(D, I)) return false; double a = 0, b = 0; for (auto& v : D.a) a = std::max(a, dabs(v)); for (auto& v : I.a) b = std::max(b, dabs(v)); return a * b * double(D.r) < (epsOf<K>() > 1e-10 ? 1e3 : 1e7); }
template<class K> std::vector<K> rhsVec(vh::Rng& g, size_t n) { auto v = randVec<K>(g, n, false); if (g.coin(0.05)) std::fill(v.begin(), v.end(), K(0)); if (g.coin(0.1) && n) { std::fill(v.begin(), v.end(), K(0)); v[g.range(0, n - 1)] = K(1); } if (g.coin(0.1)) for (auto& x : v) x *= K(1e6); return v; }

// One history of a solver object; trace is the distinct-situation signature.
// Each history runs twice with the same random stream: the second run must not change the amount of allocated memory.
template<class F> void twice(vh::Case& c, F&& f) {
  std::string trace; vh::Rng g0 = c.rng;
  { vh::Rng g = g0; trace = f(g); }
  if (c.failed) return;
  std::string d = c.desc; c.desc.reserve(4096);
  { vh::Rng g = g0; f(g); }   // settle lazily grown buffers
  size_t before = heapBytes(); { vh::Rng g = g0; f(g); } size_t after = heapBytes();
  c.check(before == after, "leak", vh::str("heap grew by ", long(after) - long(before), " bytes over one complete history"));
  c.sig(trace);
}
struct Silence { std::streambuf* o; std::ostringstream s; Silence() { o = std::cout.rdbuf(s.rdbuf()); } ~Silence() { std::cout.rdbuf(o); } };

// ---- generic history for the BCRS based wrappers --------------------------------------------------
enum { HasSub = 1, HasFile = 2, HasBits = 4, IsSLU = 8, HasSubEmptyRow = 16 };
template<class Solver, class B, int Flags> void history(vh::Case& c, int kind, long maxN) {
  using K = typename Blk<B>::K; constexpr size_t n = Blk<B>::n, m = Blk<B>::m;
  using X = typename Solver::domain_type; using Y = typename Solver::range_type;
  constexpr bool HasRaw = requires(Solver& q, K* k) { q.apply(k, k); };
  std::string file = vh::str("/tmp/vh10.", getpid()); if (const char* t = getenv("TMPDIR")) file = vh::str(t, "/f.", getpid());
  twice(c, [&](vh::Rng& g) -> std::string {
    std::string tr = kn[kind];
    c.note(vh::str(kn[kind], " block ", n, "x", m, ": "));
    std::unique_ptr<Sys<B>> cur; DM<K> D; bool vecOk = true;  // vecOk: block vector apply is meaningful
    std::unique_ptr<Solver> s;
    auto fresh = [&] { cur = gen<B>(g, kind, maxN); if (cur) { D = cur->D; vecOk = true; c.add(vh::str("[", cur->text, "]")); tr += vh::str("[", cur->s.N, ",", cur->s.v.size(), "]"); } return bool(cur); };
    Silence quiet;
    long steps = g.range(2, 8);
    for (long st = 0; st < steps && !c.failed; ++st) {
      long op = s ? g.range(0, 9) : 9;
      if (op <= 4) { // solve
        if (!cur) continue;
        size_t nn = D.r; std::vector<K> b = rhsVec<K>(g, nn), x; InverseOperatorResult res;
        if (HasRaw && g.coin(0.35)) { std::vector<K> xa = randVec<K>(g, nn, false), bb = b; c.add(" raw"); tr += "r"; if constexpr (HasRaw) s->apply(xa.data(), bb.data()); x = xa; }
        else if (vecOk) {
          X xv(nn / m); Y bv(nn / n); assign(bv, b); assign(xv, randVec<K>(g, nn, false));
          if (g.coin()) { c.add(" apply"); tr += "a"; s->apply(xv, bv, res); } else { c.add(" apply-red"); tr += "p"; s->apply(xv, bv, 1e-3, res); }
          x = flatten<K>(xv); c.check(res.converged && res.iterations == 1, "result-object", vh::str("converged ", res.converged, " iterations ", res.iterations));
          if constexpr (requires { s->nnz(); }) c.check(size_t(s->nnz()) > 0, "nnz");
        } else continue;
        if (!solved(c, D, x, b, "solution")) break;
      } else if (op <= 6) { if (!fresh()) break; c.add(" setMatrix"); tr += "M"; s->setMatrix(cur->A); if (g.coin(0.4)) cur->A = Mat<B>(); }
      else if (op == 7) {
        if constexpr ((Flags & HasSub) && n == m) {
          if (!fresh()) break; auto keep = std::move(cur); size_t N = keep->s.N;
          std::set<std::size_t> rows; for (size_t i = 0; i < N; ++i) if (g.coin(0.6)) rows.insert(i); if (rows.empty()) rows.insert(g.range(0, N - 1));
          std::vector<size_t> idx; for (auto r : rows) for (size_t k = 0; k < n; ++k) idx.push_back(r * n + k);
          auto R = sub(keep->D, idx); if (!wellc(R)) { cur = std::move(keep); s->setMatrix(cur->A); continue; }
          c.add(vh::str(" setSubMatrix(", rows.size(), ")")); tr += vh::str("S", rows.size()); s->setSubMatrix(keep->A, rows); D = R; cur = std::move(keep); if (g.coin(0.4)) cur->A = Mat<B>();
        }
      } else if (op == 8) {
        if constexpr (Flags & HasBits) {
          if (!fresh()) break; size_t nn = D.r; std::vector<size_t> idx; 
          if constexpr (n == m) {
            using BV = std::conditional_t<Dune::IsNumber<B>::value, BlockVector<int>, BlockVector<FieldVector<int, n>>>;
            BV bits(cur->s.N); std::vector<int> fl(nn, 0); for (size_t i = 0; i < nn; ++i) { fl[i] = g.coin(0.3); if (!fl[i]) idx.push_back(i); } if (idx.empty()) { fl[0] = 0; idx.push_back(0); } assign(bits, fl);
            auto R = sub(cur->D, idx); if (!wellc(R)) { s->setMatrix(cur->A); continue; }
            c.add(vh::str(" bits(", idx.size(), ")")); tr += vh::str("B", idx.size()); s->setMatrix(cur->A, bits); D = R; vecOk = Dune::IsNumber<B>::value || n == 1;
          }
        }
        if constexpr (Flags & HasFile) if (g.coin()) { // save, load into another object, use that one
          if (!cur) continue; c.add(" save/load"); tr += "L"; unlink(file.c_str());
          s->saveDecomposition(file.c_str()); bool two = g.coin(); std::unique_ptr<Solver> t = two ? std::make_unique<Solver>(cur->A, file.c_str(), 0) : std::make_unique<Solver>(file.c_str()); unlink(file.c_str()); s = std::move(t);
        } else { if (!fresh()) break; c.add(" file-ctor"); tr += "F"; unlink(file.c_str()); s = std::make_unique<Solver>(cur->A, file.c_str(), 0); unlink(file.c_str()); }
      } else { // new object
        s.reset(); if (!fresh()) break; long w = g.range(0, 4); c.add(vh::str(" new", w)); tr += vh::str("N", w);
        switch (w) {
          case 0: s = std::make_unique<Solver>(cur->A); break;
          case 1: s = std::make_unique<Solver>(); if (g.coin(0.2)) { s.reset(); cur.reset(); } else s->setMatrix(cur->A); break;
          case 2: { ParameterTree p; if (g.coin()) p["verbose"] = "0"; if (g.coin()) p["reuseVector"] = g.coin() ? "1" : "0"; s = std::make_unique<Solver>(cur->A, p); break; }
          case 3: if constexpr (Flags & IsSLU) s = std::make_unique<Solver>(cur->A, false, false); else s = std::make_unique<Solver>(cur->A, 0, true); break;
          case 4: if constexpr (Flags & IsSLU) s = std::make_unique<Solver>(cur->A, g.coin(), true); else s = std::make_unique<Solver>(cur->A, g.range(0, 2)); break;
        }
        if (s && g.coin(0.5)) cur->A = Mat<B>();   // the solver holds its own copy
      }
    }
    return tr;
  });
}
#define H(name, Solver, B, flags, kind, maxN, q) VGROUP(name, q, q * 20) { history<Solver<Mat<B>>, B, flags>(c, kind, maxN); }
#define COMMA ,

#if PART == 0
using F2 = FieldMatrix<double, 2, 2>; using F3 = FieldMatrix<double, 3, 3>; using F1 = FieldMatrix<double, 1, 1>; using F23 = FieldMatrix<double, 2, 3>;
using Z = std::complex<double>; using Z1 = FieldMatrix<Z, 1, 1>; using Z2 = FieldMatrix<Z, 2, 2>;
H("umfpack/double", UMFPack, double, HasSub | HasFile | HasBits, General, 25, 60)
H("umfpack/F1", UMFPack, F1, HasSub | HasFile | HasBits, General, 25, 40)
H("umfpack/F2", UMFPack, F2, HasSub | HasFile | HasBits, General, 12, 60)
H("umfpack/F3", UMFPack, F3, HasSub | HasFile | HasBits, General, 8, 30)
H("umfpack/F23", UMFPack, F23, HasFile, General, 4, 20)
H("umfpack/Z", UMFPack, Z, HasSub | HasFile | HasBits, General, 15, 40)
H("umfpack/Z1", UMFPack, Z1, HasSub | HasFile, General, 15, 20)
H("umfpack/Z2", UMFPack, Z2, HasSub | HasFile | HasBits, General, 8, 40)
// nested and mixed-type matrices
template<class M, class X, class Fill> void nested(vh::Case& c, Fill&& fill) {
  twice(c, [&](vh::Rng& g) -> std::string {
    Silence quiet; std::string tr; std::unique_ptr<UMFPack<M>> s; DM<double> D; X xt; c.note("");
    for (long st = 0, steps = g.range(2, 5); st < steps && !c.failed; ++st) {
      if (!s || g.coin(0.4)) { auto pA = std::make_unique<M>(); for (int k = 0; k < 20; ++k) { pA = std::make_unique<M>(); xt = X(); D = fill(g, *pA, xt); if (wellc(D)) break; } if (!wellc(D)) return tr; M& A = *pA; c.add(vh::str(" n=", D.r)); tr += vh::str("[", D.r, "]"); if (!s) s = std::make_unique<UMFPack<M>>(A); else s->setMatrix(A); }
      X x = xt, b = xt; auto bb = rhsVec<double>(g, D.r); assign(b, bb); assign(x, randVec<double>(g, D.r)); InverseOperatorResult r; s->apply(x, b, r); tr += "a";
      if (!solved(c, D, flatten<double>(x), bb, "solution")) break;
    }
    return tr;
  });
}
VGROUP("umfpack/nested", 60, 1200) {
  using I = Mat<F2>; using M = Mat<I>; using X = BlockVector<BlockVector<FieldVector<double, 2>>>;
  nested<M, X>(c, [](vh::Rng& g, M& A, X& x) {
    size_t N = g.range(1, 4); std::vector<size_t> sz(N), off(N + 1, 0); for (size_t i = 0; i < N; ++i) { sz[i] = i ? sz[0] : g.range(1, 4); off[i + 1] = off[i] + sz[i]; }
    Pattern p = randPattern(g, N, N, true); MatrixIndexSet is(N, N); for (size_t i = 0; i < N; ++i) for (auto j : p[i]) is.add(i, j); is.exportIdx(A);
    DM<double> D(2 * off[N], 2 * off[N]); x.resize(N); for (size_t i = 0; i < N; ++i) x[i].resize(sz[i]);
    for (size_t i = 0; i < N; ++i) for (auto j : p[i]) { Pattern q = randPattern(g, sz[i], sz[j], i == j); auto s = Sp<F2>::make(g, sz[i], sz[j], q, [](vh::Rng& r) { return realVal<double>(r); });
      if (i == j) for (size_t k = 0; k < sz[i]; ++k) for (int l = 0; l < 2; ++l) s.v[{k, k}][l][l] += 4; s.rebuildDense();
      build(A[i][j], s, g, IdxSet); for (size_t a = 0; a < s.D.r; ++a) for (size_t b = 0; b < s.D.c; ++b) D(2 * off[i] + a, 2 * off[j] + b) = s.D(a, b); }
    return D; });
}
VGROUP("umfpack/multitype", 60, 1200) {
  using A00 = Mat<F2>; using A01 = Mat<FieldMatrix<double, 2, 1>>; using A10 = Mat<FieldMatrix<double, 1, 2>>; using A11 = Mat<F1>;
  using M = MultiTypeBlockMatrix<MultiTypeBlockVector<A00, A01>, MultiTypeBlockVector<A10, A11>>; using X = MultiTypeBlockVector<BlockVector<FieldVector<double, 2>>, BlockVector<FieldVector<double, 1>>>;
  nested<M, X>(c, [](vh::Rng& g, M& A, X& x) {
    using namespace Indices; size_t n0 = g.range(1, 5), n1 = g.range(1, 5); x[_0].resize(n0); x[_1].resize(n1); DM<double> D(2 * n0 + n1, 2 * n0 + n1);
    auto f = [](vh::Rng& r) { return realVal<double>(r); };
    auto put = [&](auto& m, auto& s, size_t r, size_t cc) { s.rebuildDense(); build(m, s, g); for (size_t a = 0; a < s.D.r; ++a) for (size_t b = 0; b < s.D.c; ++b) D(r + a, cc + b) = s.D(a, b); };
    auto s00 = Sp<F2>::make(g, n0, n0, randPattern(g, n0, n0, true), f); for (size_t k = 0; k < n0; ++k) for (int l = 0; l < 2; ++l) s00.v[{k, k}][l][l] += 4; put(A[_0][_0], s00, 0, 0);
    auto s01 = Sp<FieldMatrix<double, 2, 1>>::make(g, n0, n1, randPattern(g, n0, n1), f); put(A[_0][_1], s01, 0, 2 * n0);
    auto s10 = Sp<FieldMatrix<double, 1, 2>>::make(g, n1, n0, randPattern(g, n1, n0), f); put(A[_1][_0], s10, 2 * n0, 0);
    auto s11 = Sp<F1>::make(g, n1, n1, randPattern(g, n1, n1, true), f); for (size_t k = 0; k < n1; ++k) s11.v[{k, k}][0][0] += 4; put(A[_1][_1], s11, 2 * n0, 2 * n0);
    return D; });
}
VGROUP("umfpack/misuse", 40, 400) {
  auto S = gen<F2>(c.rng, General, 8); if (!S) return; Silence quiet; UMFPack<Mat<F2>> s(S->A); InverseOperatorResult r;
  BlockVector<FieldVector<double, 2>> x(S->s.N), b(S->s.N + 1), b2(S->s.N), x2(S->s.N + 2); b = 0; b2 = 0; x = 0; x2 = 0;
  bool t1 = false, t2 = false, t3 = false; try { s.apply(x, b, r); } catch (Dune::Exception&) { t1 = true; } try { s.apply(x2, b2, r); } catch (Dune::Exception&) { t2 = true; } try { s.setOption(UMFPACK_CONTROL, 1); } catch (Dune::Exception&) { t3 = true; }
  c.check(t1 && t2 && t3, "misuse-not-reported", vh::str(t1, t2, t3));
  s.setOption(UMFPACK_IRSTEP, c.rng.range(0, 3)); auto bb = rhsVec<double>(c.rng, S->D.r); assign(b2, bb); s.apply(x, b2, r); solved(c, S->D, flatten<double>(x), bb, "solution");
  bool t4 = false; try { UMFPack<Mat<F2>> q("/nonexistent/file"); } catch (Dune::Exception&) { t4 = true; } c.check(t4, "missing-file-not-reported");
  c.sig(vh::str(S->s.N));
}
#endif
#if PART == 1
using F2 = FieldMatrix<double, 2, 2>; using F3 = FieldMatrix<double, 3, 3>; using F1 = FieldMatrix<double, 1, 1>; using F23 = FieldMatrix<double, 2, 3>; using F32 = FieldMatrix<double, 3, 2>;
using Z = std::complex<double>; using Z1 = FieldMatrix<Z, 1, 1>; using Z2 = FieldMatrix<Z, 2, 2>; using f2 = FieldMatrix<float, 2, 2>; using C2 = FieldMatrix<std::complex<float>, 2, 2>;
H("superlu/double", SuperLU, double, HasSub | IsSLU, General, 25, 60)
H("superlu/F1", SuperLU, F1, HasSub | IsSLU, General, 25, 40)
H("superlu/F2", SuperLU, F2, HasSub | IsSLU, General, 12, 60)
H("superlu/F3", SuperLU, F3, HasSub | IsSLU, General, 8, 30)
H("superlu/F23", SuperLU, F23, IsSLU, General, 4, 20)
H("superlu/F32", SuperLU, F32, IsSLU, General, 4, 20)
H("superlu/float", SuperLU, float, HasSub | IsSLU, General, 15, 30)
H("superlu/f2", SuperLU, f2, HasSub | IsSLU, General, 8, 30)
H("superlu/Z", SuperLU, Z, HasSub | IsSLU, General, 15, 30)
H("superlu/Z2", SuperLU, Z2, HasSub | IsSLU, General, 8, 30)
H("superlu/C2", SuperLU, C2, HasSub | IsSLU, General, 8, 30)
H("ldl/F1", LDL, F1, HasSub, SymInd, 25, 60)
H("ldl/F2", LDL, F2, HasSub, SymInd, 12, 60)
H("ldl/F3", LDL, F3, HasSub, Spd, 8, 40)
#endif
#if PART == 2
using F2 = FieldMatrix<double, 2, 2>; using F3 = FieldMatrix<double, 3, 3>; using F1 = FieldMatrix<double, 1, 1>; using F23 = FieldMatrix<double, 2, 3>;
using Z = std::complex<double>; using Z1 = FieldMatrix<Z, 1, 1>; using Z2 = FieldMatrix<Z, 2, 2>;
H("spqr/F1", SPQR, F1, HasSub, General, 25, 40)
H("spqr/F2", SPQR, F2, HasSub, General, 12, 60)
H("spqr/F3", SPQR, F3, HasSub, General, 8, 30)
H("spqr/F23", SPQR, F23, 0, General, 4, 20)
H("spqr/Z1", SPQR, Z1, HasSub, General, 15, 30)
H("spqr/Z2", SPQR, Z2, HasSub, General, 8, 40)
#endif
#if PART == 3
using F2 = FieldMatrix<double, 2, 2>; using F3 = FieldMatrix<double, 3, 3>; using F1 = FieldMatrix<double, 1, 1>;
template<class B, class V, class Index> void chol(vh::Case& c, long maxN) {
  constexpr size_t n = Blk<B>::n; using K = typename Blk<B>::K;
  twice(c, [&](vh::Rng& g) -> std::string {
    std::string tr; c.note(vh::str("block ", n, ":")); auto s = std::make_unique<Cholmod<V, Index>>(); std::vector<size_t> idx; DM<K> D; size_t N = 0; bool set = false;
    for (long st = 0, steps = g.range(2, 8); st < steps && !c.failed; ++st) {
      if (!set || g.coin(0.4)) {
        if (set && g.coin(0.1)) { s = std::make_unique<Cholmod<V, Index>>(); tr += "N"; c.add(" new"); }
        auto S = gen<B>(g, Spd, maxN); if (!S) return tr; N = S->s.N; size_t nn = N * n; D = S->D; idx.clear(); set = true;
        if (g.coin(0.2)) for (auto& e : S->s.v) if (e.first.first > e.first.second) S->A[e.first.first][e.first.second] *= K(1); 
        if (g.coin()) {
          std::vector<std::array<bool, n>> ign(N); int w = g.range(0, 5); for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < n; ++k) { bool b = w == 0 ? true : w == 1 ? false : g.coin(w == 2 ? 0.8 : 0.3); ign[i][k] = b; if (!b) idx.push_back(i * n + k); }
          c.add(vh::str(" set(", N, ") ignoring ", nn - idx.size())); tr += vh::str("I", N, ",", nn - idx.size());
          if constexpr (Dune::IsNumber<B>::value) { std::vector<bool> fl(N); for (size_t i = 0; i < N; ++i) fl[i] = ign[i][0]; BlockVector<int> bi(N); for (size_t i = 0; i < N; ++i) bi[i] = fl[i]; s->setMatrix(S->A, &bi); }
          else s->setMatrix(S->A, &ign);
        } else { for (size_t i = 0; i < nn; ++i) idx.push_back(i); c.add(vh::str(" set(", N, ")")); tr += vh::str("M", N); s->setMatrix(S->A); }
      } else {
        size_t nn = N * n; V x(N), b(N); auto bb = rhsVec<K>(g, nn), xx = randVec<K>(g, nn, false); assign(x, xx); assign(b, bb); InverseOperatorResult res; c.add(" apply"); tr += "a";
        if (g.coin()) s->apply(x, b, res); else s->apply(x, b, 1e-5, res);
        c.check(res.converged, "result-object", vh::str("converged ", res.converged));
        auto y = flatten<K>(x); std::vector<bool> act(nn, false); for (auto i : idx) act[i] = true;
        for (size_t i = 0; i < nn; ++i) if (!act[i] && !c.check(y[i] == xx[i], "ignored-entry-changed", vh::str("entry ", i))) break;
        c.check(flatten<K>(b) == bb, "rhs-changed");
        std::vector<K> ys, bs; for (auto i : idx) { ys.push_back(y[i]); bs.push_back(bb[i]); } if (!idx.empty() && !solved(c, sub(D, idx), ys, bs, "solution")) break;
      }
    }
    return tr;
  });
}
VGROUP("cholmod/double", 80, 1600) { chol<double, BlockVector<double>, int>(c, 25); }
VGROUP("cholmod/F1", 40, 800) { chol<F1, BlockVector<FieldVector<double, 1>>, int>(c, 25); }
VGROUP("cholmod/F2", 80, 1600) { chol<F2, BlockVector<FieldVector<double, 2>>, SuiteSparse_long>(c, 12); }
VGROUP("cholmod/F3", 40, 800) { chol<F3, BlockVector<FieldVector<double, 3>>, int>(c, 8); }
VGROUP("cholmod/f2", 30, 600) { chol<FieldMatrix<float, 2, 2>, BlockVector<FieldVector<float, 2>>, int>(c, 8); }
VGROUP("cholmod/multitype", 50, 1000) {
  using A00 = Mat<F2>; using A01 = Mat<FieldMatrix<double, 2, 1>>; using A10 = Mat<FieldMatrix<double, 1, 2>>; using A11 = Mat<F1>;
  using M = MultiTypeBlockMatrix<MultiTypeBlockVector<A00, A01>, MultiTypeBlockVector<A10, A11>>; using X = MultiTypeBlockVector<BlockVector<FieldVector<double, 2>>, BlockVector<FieldVector<double, 1>>>;
  using namespace Indices;
  twice(c, [&](vh::Rng& g) -> std::string {
    c.note(""); auto s00 = gen<F2>(g, Spd, 6), dummy = gen<F2>(g, Spd, 2); auto s11 = gen<F1>(g, Spd, 6); if (!s00 || !s11) return "";
    size_t n0 = s00->s.N, n1 = s11->s.N; DM<double> D(2 * n0 + n1, 2 * n0 + n1); auto p = randPattern(g, n0, n1); auto s01 = Sp<FieldMatrix<double, 2, 1>>::make(g, n0, n1, p, [](vh::Rng& r) { return realVal<double>(r); });
    Sp<FieldMatrix<double, 1, 2>> s10; s10.N = n1; s10.M = n0; s10.p.resize(n1); for (auto& e : s01.v) { FieldMatrix<double, 1, 2> t; t[0][0] = e.second[0][0]; t[0][1] = e.second[1][0]; s10.p[e.first.second].insert(e.first.first); s10.v[{e.first.second, e.first.first}] = t; } s10.rebuildDense();
    // add dominance
    for (size_t i = 0; i < n0; ++i) { auto& b = s00->s.v[{i, i}]; for (int k = 0; k < 2; ++k) { double r = 0; for (size_t j = 0; j < n1; ++j) r += std::abs(s01.D(2 * i + k, j)); b[k][k] += r; } } for (size_t i = 0; i < n1; ++i) { auto& b = s11->s.v[{i, i}]; double r = 0; for (size_t j = 0; j < 2 * n0; ++j) r += std::abs(s10.D(i, j)); b[0][0] += r; }
    M A; s00->s.rebuildDense(); s11->s.rebuildDense(); auto put = [&](auto& m, auto& s, size_t r, size_t cc) { build(m, s, g); for (size_t a = 0; a < s.D.r; ++a) for (size_t b = 0; b < s.D.c; ++b) D(r + a, cc + b) = s.D(a, b); };
    put(A[_0][_0], s00->s, 0, 0); put(A[_0][_1], s01, 0, 2 * n0); put(A[_1][_0], s10, 2 * n0, 0); put(A[_1][_1], s11->s, 2 * n0, 2 * n0);
    Cholmod<X> s; std::vector<size_t> idx; std::string tr = vh::str(n0, ",", n1);
    if (g.coin()) { MultiTypeBlockVector<BlockVector<FieldVector<int, 2>>, BlockVector<FieldVector<int, 1>>> ig; ig[_0].resize(n0); ig[_1].resize(n1); std::vector<int> fl(D.r); for (size_t i = 0; i < D.r; ++i) { fl[i] = g.coin(0.3); if (!fl[i]) idx.push_back(i); } assign(ig, fl); s.setMatrix(A, &ig); tr += "i"; }
    else { for (size_t i = 0; i < D.r; ++i) idx.push_back(i); s.setMatrix(A); }
    for (int k = 0; k < 2; ++k) { X x, b; x[_0].resize(n0); x[_1].resize(n1); b = x; auto bb = rhsVec<double>(g, D.r), xx = randVec<double>(g, D.r); assign(b, bb); assign(x, xx); InverseOperatorResult r; s.apply(x, b, r); auto y = flatten<double>(x); std::vector<double> ys, bs; for (auto i : idx) { ys.push_back(y[i]); bs.push_back(bb[i]); xx[i] = y[i]; } c.check(xx == y, "ignored-entry-changed"); if (!idx.empty()) solved(c, sub(D, idx), ys, bs, "solution"); }
    return tr;
  });
}
// block tridiagonal
template<class B, class V> void btd(vh::Case& c) {
  using K = typename Blk<B>::K; constexpr size_t n = Blk<B>::n; auto& g = c.rng;
  size_t N = g.range(0, 12); c.note(vh::str("N=", N)); BTDMatrix<B> A(N); DM<K> D(N * n, N * n);
  auto put = [&](size_t i, size_t j, K w) { DM<K> t(n, n); B b = Blk<B>::make(g, t, 0, 0, [](vh::Rng& r) { return realVal<K>(r); }); for (size_t k = 0; k < n; ++k) el(b, k, k) += w; A[i][j] = b; Blk<B>::put(b, D, i * n, j * n); };
  for (size_t i = 0; i < N; ++i) { if (i) put(i, i - 1, K(0)); put(i, i, K(4 * double(n))); if (i + 1 < N) put(i, i + 1, K(0)); }
  auto A0 = A;
  for (int k = 0; k < 3; ++k) { V x(N), b(N); auto bb = rhsVec<K>(g, N * n); assign(b, bb); assign(x, randVec<K>(g, N * n)); A.solve(x, b); if (N) solved(c, D, flatten<K>(x), bb, "solution"); c.check(flatten<K>(b) == bb, "rhs-changed"); }
  bool same = true; for (size_t i = 0; i < N; ++i) for (size_t j = i ? i - 1 : 0; j < std::min(N, i + 2); ++j) same = same && A[i][j] == A0[i][j]; c.check(same, "matrix-changed"); c.sig(vh::str(N));
}
VGROUP("btd/double", 40, 800) { btd<double, BlockVector<double>>(c); }
VGROUP("btd/F1", 20, 400) { btd<F1, BlockVector<FieldVector<double, 1>>>(c); }
VGROUP("btd/F2", 40, 800) { btd<F2, BlockVector<FieldVector<double, 2>>>(c); }
VGROUP("btd/Z3", 40, 800) { btd<FieldMatrix<std::complex<double>, 3, 3>, BlockVector<FieldVector<std::complex<double>, 3>>>(c); }
#endif
