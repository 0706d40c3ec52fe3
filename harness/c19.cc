// C19: overlapping Schwarz methods and subdomain solvers against their algebraic definition (dense, independent of ISTL).
#include "ref.hh"
#include "iluref.hh"
#include <dune/istl/matrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/overlappingschwarz.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/smoother.hh>
#include "solverspy.hh"
#include "amgref.hh"
using vh::str; using Dune::BlockVector; using Dune::FieldVector; using Dune::FieldMatrix; using Dune::BCRSMatrix;
#ifndef PART
#define PART 0
#endif
enum Local { Exact, Ilu0, IluN };
using Cover = std::vector<std::set<size_t>>;
template<class B> struct VecOf { using type = B; };
template<class K, int N> struct VecOf<FieldMatrix<K, N, N>> { using type = FieldVector<K, N>; };
template<class K> constexpr double epsOf() { return double(std::numeric_limits<decltype(std::abs(K()))>::epsilon()); }
// The definition, evaluated in double (or complex double) on the dense expansion.
template<class K> struct Def {
  DM<K> D; Pattern p; size_t b; Local loc; double amp = 1, scale = 0; // amp: how much rounding in the local solves can be amplified
  DM<K> sub(const std::set<size_t>& s) const { size_t n = s.size(); DM<K> A(n * b, n * b); size_t i = 0; for (auto gi : s) { size_t j = 0; for (auto gj : s) { for (size_t r = 0; r < b; ++r) for (size_t t = 0; t < b; ++t) A(i * b + r, j * b + t) = D(gi * b + r, gj * b + t); ++j; } ++i; } return A; }
  std::vector<K> local(const std::set<size_t>& s, const std::vector<K>& r) {
    DM<K> A = sub(s); std::vector<K> z;
    if (loc == Exact) { if (!solve(A, r, z)) throw Singular{}; DM<K> I; if (!inverse(A, I)) throw Singular{}; double a = scale, c = 0; for (auto& e : A.a) a = std::max(a, dabs(e)); for (auto& e : I.a) c = std::max(c, dabs(e)); amp = std::max(amp, a * c * A.r); return z; }
    struct L { size_t N; Pattern p; DM<K> D; } l{s.size(), Pattern(s.size()), A}; std::vector<size_t> gl(s.begin(), s.end()); std::map<size_t, size_t> lo; for (size_t i = 0; i < gl.size(); ++i) lo[gl[i]] = i;
    size_t off = 0; for (size_t i = 0; i < gl.size(); ++i) for (auto j : p[gl[i]]) if (lo.count(j)) { l.p[i].insert(lo[j]); off = std::max(off, lo[j] > i ? lo[j] - i : i - lo[j]); }
    return iluApply(BM<K>(l, b), loc == Ilu0 ? l.p : fill(l.p, int((off + 1) / 2)), r, 1.0);
  }
  void step(const Cover& cov, const std::vector<K>& x, const std::vector<K>& d, size_t q, double w, std::vector<K>& upd) {
    auto Ax = D.mul(x); std::vector<K> r; for (auto i : cov[q]) for (size_t t = 0; t < b; ++t) r.push_back(d[i * b + t] - Ax[i * b + t]);
    auto z = local(cov[q], r); size_t k = 0; for (auto i : cov[q]) for (size_t t = 0; t < b; ++t) upd[i * b + t] += K(w) * z[k++];
  }
  void additive(const Cover& c, std::vector<K>& x, const std::vector<K>& d, double w) { auto old = x; for (size_t q = 0; q < c.size(); ++q) step(c, old, d, q, w, x); }
  void mult(const Cover& c, std::vector<K>& x, const std::vector<K>& d, double w, bool fwd) { for (size_t q = 0; q < c.size(); ++q) { auto old = x; step(c, old, d, fwd ? q : c.size() - 1 - q, w, x); } }
};
// double-precision twin of a field
template<class K> struct Wide { using type = double; }; template<class R> struct Wide<std::complex<R>> { using type = std::complex<double>; };
template<class W, class K> static DM<W> widen(const DM<K>& A) { DM<W> B(A.r, A.c); for (size_t i = 0; i < A.a.size(); ++i) B.a[i] = W(A.a[i]); return B; }
template<class W, class K> static std::vector<W> widen(const std::vector<K>& A) { return std::vector<W>(A.begin(), A.end()); }

static Cover randCover(vh::Rng& g, const Pattern& p, std::string& kind) {
  size_t N = p.size(); Cover c; long k = g.range(0, 6); static const char* nm[] = {"random", "singles", "nested", "whole", "neighbours", "strips", "disjoint"}; kind = nm[k];
  switch (k) {
    case 0: { long n = g.range(1, 5); for (long i = 0; i < n; ++i) { std::set<size_t> s; for (size_t j = 0; j < N; ++j) if (g.coin(0.4)) s.insert(j); c.push_back(s); } break; }
    case 1: for (size_t i = 0; i < N; ++i) c.push_back({i}); g.shuffle(c); break;
    case 2: { std::vector<size_t> o; for (size_t i = 0; i < N; ++i) o.push_back(i); g.shuffle(o); std::set<size_t> s; for (auto i : o) { s.insert(i); if (g.coin(0.4)) c.push_back(s); } if (g.coin()) std::reverse(c.begin(), c.end()); break; }
    case 3: { std::set<size_t> s; for (size_t i = 0; i < N; ++i) s.insert(i); for (long r = g.range(1, 2); r > 0; --r) c.push_back(s); break; }
    case 4: for (size_t i = 0; i < N; ++i) { std::set<size_t> s(p[i].begin(), p[i].end()); s.insert(i); c.push_back(s); } break;
    case 5: { size_t w = g.range(1, 4), o = g.range(0, 2); for (size_t i = 0; i < N; i += w) { std::set<size_t> s; for (size_t j = i >= o ? i - o : 0; j < std::min(N, i + w + o); ++j) s.insert(j); c.push_back(s); } break; }
    case 6: { long n = g.range(1, 4); c.resize(n); for (size_t i = 0; i < N; ++i) c[g.range(0, n - 1)].insert(i); break; }
  }
  // every row belongs to at least one subdomain and no subdomain is empty
  Cover r; std::set<size_t> all; for (auto& s : c) if (!s.empty()) { r.push_back(s); all.insert(s.begin(), s.end()); }
  std::set<size_t> rest; for (size_t i = 0; i < N; ++i) if (!all.count(i)) rest.insert(i);
  if (!rest.empty()) { if (r.empty() || g.coin()) r.insert(r.begin() + (r.empty() ? 0 : g.range(0, r.size())), rest); else for (auto i : rest) r[g.range(0, r.size() - 1)].insert(i); }
  return r;
}
template<class B> static Sp<B> system(vh::Rng& g, size_t N) {
  using K = typename Blk<B>::K; std::string kind; Pattern p = g.coin(0.4) ? symPattern(g, N, &kind) : randPattern(g, N, N, true, &kind); constexpr int b = Blk<B>::n;
  auto s = Sp<B>::make(g, N, N, p, [](vh::Rng& r) { return realVal<K>(r); }); s.kind = kind;
  for (size_t i = 0; i < s.D.r; ++i) { double t = 0; for (size_t j = 0; j < s.D.c; ++j) if (j != i) t += dabs(s.D(i, j)); s.D(i, i) = K((g.coin() ? 1 : -1) * (t * g.real(0.7, 1.3) + g.real(0.3, 1))); }
  for (size_t i = 0; i < N; ++i) { if constexpr (Dune::IsNumber<B>::value) s.v[{i, i}] = s.D(i, i); else for (int r = 0; r < b; ++r) for (int t = 0; t < b; ++t) s.v[{i, i}][r][t] = s.D(i * b + r, i * b + t); }
  return s;
}
struct Add { using Mode = Dune::AdditiveSchwarzMode; static constexpr const char* n = "additive"; };
struct Mul { using Mode = Dune::MultiplicativeSchwarzMode; static constexpr const char* n = "multiplicative"; };
struct Sym { using Mode = Dune::SymmetricMultiplicativeSchwarzMode; static constexpr const char* n = "symmetric"; };

template<class B, class Solver, class M, Local L, bool canPrepare> static void schwarz(vh::Case& c, const std::string& tn) {
  using K = typename Blk<B>::K; using W = typename Wide<K>::type; using Mat = BCRSMatrix<B>; using X = BlockVector<typename VecOf<B>::type>; constexpr size_t b = Blk<B>::n;
  using S = Dune::SeqOverlappingSchwarz<Mat, X, typename M::Mode, Solver>;
  auto& g = c.rng; size_t N = g.coin(0.1) ? 1 : g.range(2, c.thorough ? 20 : 11); auto s = system<B>(g, N); Mat A; int mode = build(A, s, g); std::string ck; auto cov = randCover(g, s.p, ck);
  double w = g.pick({1.0, 1.0, 1.0, 0.5, 0.75, 1.25, -0.5}); bool fly = canPrepare ? g.coin() : true, byRow = g.coin(); std::string key = str(tn, "/", M::n);
  c.note(str(key, " ", s.text(), " ", modeName(mode), " cover=", ck, "x", cov.size(), " w=", w, " fly=", fly, " byRow=", byRow));
  std::unique_ptr<S> pr;
  if (byRow) { typename S::rowtodomain_vector r2d(N); std::vector<size_t> o; for (size_t q = 0; q < cov.size(); ++q) o.push_back(q); g.shuffle(o); for (auto q : o) for (auto i : cov[q]) r2d[i].push_back(q); pr = fly && w == 1 && g.coin() ? std::make_unique<S>(A, r2d) : std::make_unique<S>(A, r2d, K(w), fly); }
  else { typename S::subdomain_vector sd; for (auto& d : cov) sd.push_back(typename S::subdomain_type(d.begin(), d.end())); pr = fly && w == 1 && g.coin() ? std::make_unique<S>(A, sd) : std::make_unique<S>(A, sd, K(w), fly); for (auto& d : sd) d.clear(); }
  c.check(pr->category() == Dune::SolverCategory::sequential, str(key, "/category"));
  Def<W> def{widen<W>(s.D), s.p, b, L}; 
  try {
    for (int rep = 0; rep < 3; ++rep) {
      auto x0 = g.coin(0.5) ? std::vector<K>(N * b, K(0)) : randVec<K>(g, N * b, false), d0 = randVec<K>(g, N * b, false); X x(N), d(N); assign(x, x0); assign(d, d0);
      auto r = widen<W>(x0), dw = widen<W>(d0); int how = g.range(0, 3); pr->pre(x, d); c.check(flatten<K>(x) == x0 && flatten<K>(d) == d0, str(key, "/pre-changes"));
      if (how == 0 || how == 1) { bool f = how == 0; f ? pr->template apply<true>(x, d) : pr->template apply<false>(x, d); if (std::is_same_v<M, Add>) def.additive(cov, r, dw, w); else def.mult(cov, r, dw, w, f); }
      else { Dune::Preconditioner<X, X>& P = *pr; P.apply(x, d); if (std::is_same_v<M, Add>) def.additive(cov, r, dw, w); else def.mult(cov, r, dw, w, true); if (std::is_same_v<M, Sym>) def.mult(cov, r, dw, w, false); }
      auto got = widen<W>(flatten<K>(x)); double sc = maxabs(r) + maxabs(widen<W>(x0)) + maxabs(dw), e = maxdiff(r, got), am = std::min(def.amp, 1e5);
      if (def.amp < 1e5 * (epsOf<K>() < 1e-10 ? 1 : 1e-3)) c.check(e <= epsOf<K>() * 2e4 * am * (1 + cov.size()) * sc, str(key, "/apply", how < 2 ? (how ? "-backward" : "-forward") : ""), str("difference ", e, " of ", sc, " amp=", def.amp, " expected ", show(r), " got ", show(got)));
      c.check(flatten<K>(d) == d0, str(key, "/defect-modified")); auto y = flatten<K>(x); pr->post(x); c.check(flatten<K>(x) == y, str(key, "/post-changes"));
      auto er = compare(A, s); c.check(er.empty(), str(key, "/matrix-modified"), er);
      c.sig(str(key, "/", N, "/", ck, "/", cov.size(), "/", w, fly, byRow, how));
      // on the fly means: the subdomain problems are those of the matrix at the time of the call
      if (fly && rep == 1) { for (auto& e : s.v) e.second *= K(1.5); s.rebuildDense(); setValues(A, s); def.D = widen<W>(s.D); }
    }
  } catch (const Singular&) {}
}
// one local solver object over a history of subdomains and matrices
template<class B, class Solver, Local L, int iface> static void localHist(vh::Case& c, const std::string& tn) {
  using K = typename Blk<B>::K; using W = typename Wide<K>::type; using Mat = BCRSMatrix<B>; using X = BlockVector<typename VecOf<B>::type>; constexpr size_t b = Blk<B>::n;
  auto& g = c.rng; std::string tr; Solver sol;
  for (int rep = 0, reps = g.range(1, 4); rep < reps; ++rep) {
    size_t N = g.range(1, 10); auto s = system<B>(g, N); Mat A; int mode = build(A, s, g); std::set<size_t> dom; double pr = g.pick({0.2, 0.5, 0.9, 1.0}); for (size_t i = 0; i < N; ++i) if (g.coin(pr)) dom.insert(i); if (dom.empty()) dom.insert(g.range(0, N - 1));
    tr += str(" ", s.text(), "/", modeName(mode), "/dom", dom.size()); c.note(tn + tr); Def<W> def{widen<W>(s.D), s.p, b, L}; size_t n = dom.size(), extra = g.pick({0, 0, 1, 4});
    sol.setSubMatrix(A, dom); if (g.coin()) { A = 0; }
    for (int q = 0; q < 2; ++q) {
      auto d0 = randVec<K>(g, n * b, false); std::vector<W> ref; try { ref = def.local(dom, widen<W>(d0)); } catch (const Singular&) { break; }
      std::vector<K> got;
      if constexpr (iface == 0) { X v(n + extra), d(n + extra); v = K(7); d = K(3); for (size_t i = 0; i < n; ++i) { if constexpr (b == 1) { if constexpr (Dune::IsNumber<B>::value) d[i] = d0[i]; else d[i][0] = d0[i]; } else for (size_t t = 0; t < b; ++t) d[i][t] = d0[i * b + t]; }
        auto dd = flatten<K>(d); sol.apply(v, d); got = flatten<K>(v); c.check(flatten<K>(d) == dd, tn + "/local-defect-modified"); for (size_t i = n * b; i < got.size(); ++i) c.check(got[i] == K(7), tn + "/writes-beyond-subdomain"); }
      else if constexpr (iface == 1) { std::vector<K> v(n * b, K(9)), d = d0; sol.apply(v.data(), d.data()); got = v; }
      else { Dune::DynamicVector<K> v(n * b, K(7)), d(n * b); for (size_t i = 0; i < n * b; ++i) d[i] = d0[i]; sol.apply(v, d); got.assign(v.begin(), v.end()); }
      got.resize(n * b); auto gw = widen<W>(got); double sc = maxabs(ref) + maxabs(widen<W>(d0)), e = maxdiff(ref, gw);
      if (def.amp < 1e5 * (epsOf<K>() < 1e-10 ? 1 : 1e-3)) c.check(e <= epsOf<K>() * 2e4 * def.amp * sc, tn + "/local-solve", str("difference ", e, " of ", sc, " expected ", show(ref), " got ", show(gw)));
    }
    c.sig(str(tn, "/", rep, "/", N, "/", n, "/", extra, "/", s.kind));
  }
}
template<class B, template<class...> class S, Local L, bool prep, int iface> static void all(vh::Case& c, const std::string& tn) {
  using Mat = BCRSMatrix<B>; using X = BlockVector<typename VecOf<B>::type>;
  auto run = [&]<class Sol>() { switch (c.rng.range(0, 3)) { case 0: schwarz<B, Sol, Add, L, prep>(c, tn); break; case 1: schwarz<B, Sol, Mul, L, prep>(c, tn); break; case 2: schwarz<B, Sol, Sym, L, prep>(c, tn); break; default: localHist<B, Sol, L, iface>(c, tn); } };
  if constexpr (iface == 1) run.template operator()<S<Mat>>(); else run.template operator()<S<Mat, X, X>>();
}
template<class M> using SLU = Dune::SuperLU<M>; template<class M> using UMF = Dune::UMFPack<M>;
using F1 = FieldMatrix<double, 1, 1>; using F2 = FieldMatrix<double, 2, 2>; using F3 = FieldMatrix<double, 3, 3>; using C2 = FieldMatrix<std::complex<double>, 2, 2>; using R2 = FieldMatrix<float, 2, 2>;
#if PART == 0
VGROUP("schwarz-ilu", 2500, 30000) { switch (c.index % 5) { case 0: all<double, Dune::ILU0SubdomainSolver, Ilu0, true, 0>(c, "ilu0/double"); break; case 1: all<F1, Dune::ILUNSubdomainSolver, IluN, true, 0>(c, "ilun/F1"); break; case 2: all<F2, Dune::ILU0SubdomainSolver, Ilu0, true, 0>(c, "ilu0/F2"); break; case 3: all<F3, Dune::ILUNSubdomainSolver, IluN, true, 0>(c, "ilun/F3"); break; case 4: all<C2, Dune::ILU0SubdomainSolver, Ilu0, true, 0>(c, "ilu0/C2"); break; } }
#elif PART == 1
VGROUP("schwarz-dense", 2500, 30000) { switch (c.index % 4) { case 0: all<double, Dune::DynamicMatrixSubdomainSolver, Exact, false, 2>(c, "dense/double"); break; case 1: all<F1, Dune::DynamicMatrixSubdomainSolver, Exact, false, 2>(c, "dense/F1"); break; case 2: all<F2, Dune::DynamicMatrixSubdomainSolver, Exact, false, 2>(c, "dense/F2"); break; case 3: all<C2, Dune::DynamicMatrixSubdomainSolver, Exact, false, 2>(c, "dense/C2"); break; } }
#elif PART == 2
VGROUP("schwarz-superlu", 2500, 30000) { switch (c.index % 5) { case 0: all<double, Dune::SuperLU, Exact, true, 1>(c, "superlu/double"); break; case 1: all<F1, Dune::SuperLU, Exact, true, 1>(c, "superlu/F1"); break; case 2: all<F2, Dune::SuperLU, Exact, true, 1>(c, "superlu/F2"); break; case 3: all<C2, Dune::SuperLU, Exact, true, 1>(c, "superlu/C2"); break; case 4: all<R2, Dune::SuperLU, Exact, true, 1>(c, "superlu/R2"); break; } }
#elif PART == 3
VGROUP("schwarz-umfpack", 2500, 30000) { switch (c.index % 4) { case 0: all<double, Dune::UMFPack, Exact, true, 1>(c, "umfpack/double"); break; case 1: all<F1, Dune::UMFPack, Exact, true, 1>(c, "umfpack/F1"); break; case 2: all<F3, Dune::UMFPack, Exact, true, 1>(c, "umfpack/F3"); break; case 3: all<C2, Dune::UMFPack, Exact, true, 1>(c, "umfpack/C2"); break; } }
#elif PART == 4
namespace Amg = Dune::Amg;
struct Quiet { std::streambuf* o; struct Null : std::streambuf { int overflow(int c) override { return c; } } nb; Quiet() { o = std::cout.rdbuf(&nb); } ~Quiet() { std::cout.rdbuf(o); } };
enum Ov { Vertex, Aggregate, Pairwise, None }; static const char* ovName[] = {"vertex", "aggregate", "pairwise", "none"};
// The subdomains that belong to an aggregation: in the order of the aggregates, then those of the isolated vertices; pairs in lexicographic order.
static Cover domains(const Pattern& p, const std::vector<size_t>& agg, Ov ov) {
  Cover r; size_t N = p.size(), na = 0; auto edge = [&](size_t i, size_t j) { return i != j && p[i].count(j); };
  if (ov == Pairwise) { std::set<std::pair<size_t, size_t>> s; for (size_t i = 0; i < N; ++i) for (auto j : p[i]) if (i != j) s.insert(std::minmax(i, size_t(j))); for (auto& e : s) r.push_back({e.first, e.second}); return r; }
  for (auto a : agg) if (a != mg::NONE) na = std::max(na, a + 1);
  r.resize(na); for (size_t i = 0; i < N; ++i) if (agg[i] != mg::NONE) r[agg[i]].insert(i);
  for (size_t i = 0; i < N; ++i) if (agg[i] == mg::NONE) r.push_back({i});
  Cover core = r; if (ov != None) for (size_t q = 0; q < r.size(); ++q) for (auto i : core[q]) for (size_t j = 0; j < N; ++j) if (edge(i, j) && !core[q].count(j)) { if (agg[j] != mg::NONE) { if (ov == Vertex) r[q].insert(j); else r[q].insert(core[agg[j]].begin(), core[agg[j]].end()); } else if (ov == Aggregate) r[q].insert(j); }
  return r;
}
static std::string text(const Cover& c) { std::string t; for (auto& s : c) { t += "{"; for (auto i : s) t += str(i, ","); t += "}"; } return t; }
template<class B, class M> static void smootherDomains(vh::Case& c, const char* tn) {
  using Mat = BCRSMatrix<B>; using X = BlockVector<typename VecOf<B>::type>; using S = Dune::SeqOverlappingSchwarz<Mat, X, M>; using CA = Amg::ConstructionArgs<S>; using Args = typename Amg::SmootherTraits<S>::Arguments; using AM = typename CA::AggregatesMap;
  auto& g = c.rng; Ov ov = Ov(g.range(0, 3)); Args a; a.overlap = ov == Vertex ? Args::vertex : ov == Aggregate ? Args::aggregate : ov == Pairwise ? Args::pairwise : Args::none; a.relaxationFactor = g.pick({1.0, 0.5}); a.onthefly = g.coin();
  CA ca; ca.setArgs(a); std::string hist = str(ovName[ov]); 
  for (int rep = 0, reps = g.range(1, 4); rep < reps; ++rep) { // one object describes the smoothers of all levels
    size_t N = g.coin(0.15) ? 1 : g.range(2, 14); std::string kind; Pattern p = symPattern(g, N, &kind); for (size_t i = 0; i < N; ++i) p[i].insert(i); auto s = Sp<B>::make(g, N, N, p, [](vh::Rng& r) { return realVal<typename Blk<B>::K>(r); }); Mat A; build(A, s, g);
    bool withMap = g.coin(0.7); AM am(N); std::vector<size_t> agg(N); size_t na = g.range(1, std::max<size_t>(1, N / 2)); double iso = g.pick({0.0, 0.0, 0.3, 1.0}); std::map<size_t, size_t> num; std::vector<size_t> o; for (size_t i = 0; i < na; ++i) o.push_back(i); g.shuffle(o);
    for (size_t i = 0; i < N; ++i) { if (!withMap) { agg[i] = i; continue; } if (g.coin(iso)) { agg[i] = mg::NONE; continue; } size_t k = g.range(0, na - 1); agg[i] = k; }
    if (withMap && ov == Aggregate) { std::vector<size_t> comp(N, mg::NONE); size_t nc = 0; for (size_t i = 0; i < N; ++i) if (agg[i] != mg::NONE && comp[i] == mg::NONE) { std::vector<size_t> q{i}; comp[i] = nc; while (!q.empty()) { size_t v = q.back(); q.pop_back(); for (auto j : p[v]) if (agg[j] == agg[i] && comp[j] == mg::NONE) { comp[j] = nc; q.push_back(j); } } ++nc; } agg = comp; } // its neighbour search relies on connected aggregates
    if (withMap) { for (size_t i = 0; i < N; ++i) if (agg[i] != mg::NONE && !num.count(agg[i])) { size_t k = num.size(); num[agg[i]] = k; } std::vector<size_t> q; for (size_t i = 0; i < num.size(); ++i) q.push_back(i); if (g.coin()) g.shuffle(q); for (auto& v : agg) if (v != mg::NONE) v = q[num[v]]; for (size_t i = 0; i < N; ++i) am[i] = agg[i] == mg::NONE ? AM::ISOLATED : agg[i]; }
    std::string as; for (auto v : agg) as += v == mg::NONE ? " i" : str(" ", v); hist += str(" | ", kind, N, withMap ? " agg" : " single", as); c.note(str(tn, " ", hist));
    if (withMap) ca.setMatrix(A, am); else { bool threw = false; try { ca.setMatrix(A); } catch (const Dune::NotImplemented&) { threw = true; } c.check(threw == (ov == Aggregate), str(tn, "/not-implemented"), hist); if (threw) continue; }
    Cover want = domains(p, agg, ov), got; for (auto& d : ca.getSubDomains()) { got.emplace_back(d.begin(), d.end()); for (auto i : d) c.check(i < N, str(tn, "/", ovName[ov], "/out-of-range"), hist); }
    auto w = want, h = got; std::sort(w.begin(), w.end()); std::sort(h.begin(), h.end()); c.check(w == h, str(tn, "/", ovName[ov], "/subdomains"), str(hist, ": ", text(got), " expected ", text(want))); c.sig(str(ovName[ov], withMap, "/", rep, "/", N, "/", na, "/", iso, kind)); if (w != h) return;
  }
}
VGROUP("smoother-subdomains", 3000, 40000) { if (c.rng.coin()) smootherDomains<F1, Dune::AdditiveSchwarzMode>(c, "F1"); else smootherDomains<double, Dune::MultiplicativeSchwarzMode>(c, "double"); }

template<template<class...> class S, class Mat, class X> struct LocalType { using type = S<Mat, X, X>; }; template<class Mat, class X> struct LocalType<Dune::SuperLU, Mat, X> { using type = Dune::SuperLU<Mat>; };
template<class B, class M, template<class...> class Loc, Local Lo> static void amgSchwarz(vh::Case& c, const char* tn) {
  using Mat = BCRSMatrix<B>; using X = BlockVector<typename VecOf<B>::type>; using S = Dune::SeqOverlappingSchwarz<Mat, X, typename M::Mode, typename LocalType<Loc, Mat, X>::type>; using Op = Dune::MatrixAdapter<Mat, X, X>; using A_ = Amg::AMG<Op, X, S>; using PI = Amg::SequentialInformation; using C = Amg::CoarsenCriterion<Amg::SymmetricCriterion<Mat, Amg::FirstDiagonal>>; using H = Amg::MatrixHierarchy<Op, PI, std::allocator<X>>; constexpr int n = Blk<B>::n;
  auto& g = c.rng; Quiet q; std::string kind, txt; auto s = dominant<B>(g, g.coin(0.3) ? 12 : n > 1 ? 25 : 45, kind); auto A = std::make_shared<Mat>(); build(*A, s, g); Op op(*A); mg::Cycle m;
  int target = g.pick({0, 1, 2, 4, 10, 1000}), maxl = g.pick({2, 3, 15}); m.damp = g.pick({1.0, 1.6}); C cr{Amg::Parameters(maxl, target, g.pick({1.0, 1.2}), m.damp)}; double al, be; parameters(g, cr, txt, al, be); m.gamma = g.pick({1, 1, 2}); m.pre = g.range(0, 2); m.post = g.range(0, 2); m.additive = g.coin(0.15); cr.setGamma(m.gamma); cr.setNoPreSmoothSteps(m.pre); cr.setNoPostSmoothSteps(m.post); cr.setAdditive(m.additive); cr.setDebugLevel(0);
  Ov ov = g.pick({Vertex, Pairwise, None}); typename A_::SmootherArgs sa; using Args = typename A_::SmootherArgs; sa.overlap = ov == Vertex ? Args::vertex : ov == Aggregate ? Args::aggregate : ov == Pairwise ? Args::pairwise : Args::none; sa.relaxationFactor = g.pick({1.0, 0.6}); sa.onthefly = g.coin();
  c.note(str(tn, " ", M::n, " ", ovName[ov], " ", s.N < 9 ? s.text() : str(kind, " n=", s.N), " target=", target, " maxl=", maxl, " gamma=", m.gamma, " pre=", m.pre, " post=", m.post, m.additive ? " additive" : "", " w=", sa.relaxationFactor, " fly=", sa.onthefly, txt));
  { auto op2 = std::make_shared<Op>(std::shared_ptr<const Mat>(A)); H h(op2, std::make_shared<PI>()); h.template build<Dune::NegateSet<typename PI::OwnerSet>>(cr); std::vector<std::vector<size_t>> ag; auto mm = h.matrices().finest(); auto a = h.aggregatesMaps().begin(); for (size_t l = 0; l + 1 < h.levels(); ++l, ++mm, ++a) { std::vector<size_t> v(mm->getmat().N()); for (size_t i = 0; i < v.size(); ++i) v[i] = (**a)[i] == std::decay_t<decltype(**a)>::ISOLATED ? mg::NONE : (**a)[i]; ag.push_back(v); } m.setup(mg::level(s), ag); if (std::pow(m.gamma, m.lv.size()) > 200) { m.gamma = 1; cr.setGamma(1); } }
  double amp = 1, inter = 0, big = 0; for (auto& r : m.lv[0].a) for (auto& e : r) big = std::max(big, std::abs(e.second)); double w = sa.relaxationFactor; std::map<const mg::Level*, Cover> covers; // inter: additive smoothing may be divergent; coarse entries carry rounding errors of the size of the fine ones
  m.s.fn = [&](const mg::Level& L, const mg::V& b, bool back) { auto it = covers.find(&L); if (it == covers.end()) it = covers.emplace(&L, domains(L.p, L.agg, ov)).first; auto& cov = it->second; Def<double> def; def.p = L.p; def.b = n; def.scale = big; def.loc = Lo; def.D = DM<double>(L.size(), L.size()); for (size_t i = 0; i < L.size(); ++i) for (auto& e : L.a[i]) def.D(i, e.first) = e.second;
    mg::V x(L.size(), 0); if (std::is_same_v<M, Add>) def.additive(cov, x, b, w); else if (std::is_same_v<M, Mul>) def.mult(cov, x, b, w, !back || m.additive); else { def.mult(cov, x, b, w, true); def.mult(cov, x, b, w, false); } amp = std::max(amp, def.amp); inter = std::max({inter, maxabs(x), maxabs(b)}); return x; };
  A_ amg(op, cr, sa); c.check(amg.levels() == m.lv.size(), str(tn, "/levels")); X x(s.N), b(s.N); auto b0 = randVec<double>(g, s.N * n, false); x = 0; assign(b, b0); amg.pre(x, b);
  { auto& L = m.lv.back(); L.direct(mg::V(L.size(), 0)); double a = big, i = 0; for (auto& r : L.a) for (auto& e : r) a = std::max(a, std::abs(e.second)); for (auto v : L.inv.a) i = std::max(i, std::abs(v)); amp = std::max(amp, a * i * L.size()); } // condition of the coarsest system
  try { for (int k = 0; k < 2; ++k) { auto d0 = randVec<double>(g, s.N * n, false); X v(s.N), d(s.N); v = 0; assign(d, d0); amg.apply(v, d); auto got = flatten<double>(v), want = m(d0); double sc = maxabs(want) + maxabs(d0) + inter; if (amp < 1e6) c.check(finite(got) && maxdiff(got, want) <= 1e-11 * std::min(amp, 1e5) * sc * (1 + s.N), str("amg-", M::n, "-", ovName[ov], "/cycle"), str("levels ", m.lv.size(), " amp=", amp, " ", show(got), " expected ", show(want), " diff ", maxdiff(got, want))); c.check(flatten<double>(d) == d0, str("amg-", M::n, "/defect-modified")); } } catch (const Singular&) {}
  amg.post(x); c.check(compare(*A, s).empty(), str("amg-", M::n, "/matrix-changed"), compare(*A, s)); c.sig(str(tn, M::n, ovName[ov], kind, s.N, "L", m.lv.size(), m.pre, m.post, m.gamma, w));
}
template<class B, template<class...> class S, Local L> static void amgMode(vh::Case& c, const char* tn) { switch (c.index % 3) { case 0: amgSchwarz<B, Add, S, L>(c, tn); break; case 1: amgSchwarz<B, Mul, S, L>(c, tn); break; default: amgSchwarz<B, Sym, S, L>(c, tn); } }
VGROUP("amg-schwarz", 400, 5000) { if (c.rng.coin(0.4)) amgMode<F1, Dune::SuperLU, Exact>(c, "superlu/F1"); else if (c.rng.coin()) amgMode<F2, Dune::SuperLU, Exact>(c, "superlu/F2"); else amgMode<F1, Dune::ILU0SubdomainSolver, Ilu0>(c, "ilu0/F1"); }
#endif
