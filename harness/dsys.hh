// A distributed linear system whose global matrix every process knows, with its parallel operator.
#ifndef DSYS_HH
#define DSYS_HH
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include "dprob.hh"
using namespace dp; using namespace Dune;
struct Quiet { std::streambuf *o, *e; struct Null : std::streambuf { int overflow(int c) override { return c; } } nb; Quiet() { o = std::cout.rdbuf(&nb); e = std::cerr.rdbuf(&nb); } ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
template<class B> struct VB { using type = FieldVector<typename Blk<B>::K, Blk<B>::n>; }; template<> struct VB<double> { using type = double; };
template<class K> static std::vector<std::vector<K>> gatherAll(int P, const std::vector<K>& mine) { int n = mine.size() * sizeof(K); std::vector<int> cnt(P), dis(P + 1, 0); MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD); for (int p = 0; p < P; ++p) dis[p + 1] = dis[p] + cnt[p]; std::vector<K> all(dis[P] / sizeof(K) + 1); K dummy; MPI_Allgatherv(mine.empty() ? &dummy : mine.data(), n, MPI_BYTE, all.data(), cnt.data(), dis.data(), MPI_BYTE, MPI_COMM_WORLD); std::vector<std::vector<K>> r(P); for (int p = 0; p < P; ++p) r[p].assign(all.begin() + dis[p] / sizeof(K), all.begin() + dis[p + 1] / sizeof(K)); return r; }
// diagonally dominant (with factor f) matrix with the given pattern
template<class B> static Sp<B> dominantMatrix(vh::Rng& g, const Pattern& p, bool sym, bool mm, double f) {
  using K = typename Blk<B>::K; constexpr size_t n = Blk<B>::n; Sp<B> A; A.N = A.M = p.size(); A.p = p; DM<K> D(A.N * n, A.N * n);
  for (size_t i = 0; i < A.N; ++i) for (auto j : p[i]) for (size_t r = 0; r < n; ++r) for (size_t s = 0; s < n; ++s) { size_t I = i * n + r, J = j * n + s; if (I == J) continue; if (sym && J < I) { D(I, J) = conj_(D(J, I)); continue; } K v = realVal<K>(g); if (mm) v = i == j ? K(0) : r == s ? K(-0.2 - 0.8 * std::abs(dabs(v))) : K(0); D(I, J) = v; }
  for (size_t I = 0; I < D.r; ++I) { double s = 0; for (size_t J = 0; J < D.r; ++J) s += dabs(D(I, J)); D(I, I) = K(s == 0 ? 1 : s * f); }
  for (size_t i = 0; i < A.N; ++i) for (auto j : p[i]) { B b(0.0); if constexpr (IsNumber<B>::value) b = D(i, j); else for (size_t r = 0; r < n; ++r) for (size_t s = 0; s < n; ++s) b[r][s] = D(i * n + r, j * n + s); A.v[{i, j}] = b; } A.D = D; return A; }
template<class B, class G> struct Prob { using K = typename Blk<B>::K; using Mat = BCRSMatrix<B>; using V = BlockVector<typename VB<B>::type>; using Comm = OwnerOverlapCopyCommunication<G, int>; using Op = LinearOperator<V, V>; static constexpr size_t n = Blk<B>::n;
  Layout d; Sp<B> A, L; std::unique_ptr<Comm> C; Mat M; std::shared_ptr<AssembledLinearOperator<Mat, V, V>> op; std::vector<K> x, b; bool nov, sym, mmat, sympat = false; double fac, gval; std::string kind; int rank, P; size_t N;
  Prob(mp::Case& c, bool nov_, size_t maxN, double f, double ghost, bool anySize = true, bool mm = false, int forceSym = -1) : nov(nov_), rank(c.rank), P(c.size) { auto& g = c.rng; bool full = !anySize || g.coin(0.8), holes = g.coin(); sym = forceSym < 0 ? g.coin(0.6) : forceSym; mm = mm || g.coin(0.3); mmat = mm; fac = f; gval = ghost;
    if (nov) { auto E = elements(g, maxN); A = dominantMatrix<B>(g, E.p, sym, mm, f); d = nonoverlapping(g, E, P, full, g.coin(0.7), holes); L = localNov(A, d, rank, ghost); } else { size_t N = g.range(full ? std::min<size_t>(P, maxN) : 1, maxN); Pattern p = symPattern(g, N, &kind); A = dominantMatrix<B>(g, p, sym, mm, f); d = overlapping(g, p, P, full, holes, g.coin(0.4)); sympat = g.coin(); L = local(A, d, rank, sympat); }
    N = A.N; kind = str(kind, sym ? "" : " unsym", mm ? " mm" : "", " ", d.show()); C = std::make_unique<Comm>(MPI_COMM_WORLD, d.cat); fill(*C, d, rank); vh::Rng lg = c.local(); build(M, L, lg); if (nov) op = std::make_shared<NonoverlappingSchwarzOperator<Mat, V, V, Comm>>(M, *C); else op = std::make_shared<OverlappingSchwarzOperator<Mat, V, V, Comm>>(M, *C);
    x = randVec<K>(g, N * n, false); b = A.D.mul(x); }
  // other values for the same pattern, written into the existing matrix
  void revalue(vh::Rng& g) { A = dominantMatrix<B>(g, A.p, sym, mmat, fac); L = nov ? localNov(A, d, rank, gval) : local(A, d, rank, sympat); setValues(M, L); x = randVec<K>(g, N * n, false); b = A.D.mul(x); }
  size_t nl() const { return d.n(rank); }
  // attr: what the owners (0) the copies (1) and the overlap (2) get
  V spread(const std::vector<K>& u, std::initializer_list<int> garbage = {}) const { V v(nl()); std::vector<K> f(nl() * n); for (size_t i = 0; i < nl(); ++i) for (size_t k = 0; k < n; ++k) { bool bad = std::find(garbage.begin(), garbage.end(), d.loc[rank][i].attr) != garbage.end(); f[i * n + k] = bad ? K(77.5 + i) : u[d.loc[rank][i].g * n + k]; } ref::assign(v, f); return v; }
  // all components on all processes that hold a meaningful value
  std::string compareTo(const V& v, const std::vector<K>& u, double tol, bool copies, bool overlap, bool zeroCopies = false) const { auto f = flatten<K>(v); double m = maxabs(u) + 1e-300; for (size_t i = 0; i < nl(); ++i) for (size_t k = 0; k < n; ++k) { int a = d.loc[rank][i].attr; if ((a == Copy && !copies) || (a == Overlap && !overlap)) continue; K w = a == Copy && zeroCopies ? K(0) : u[d.loc[rank][i].g * n + k]; if (!(dabs(K(f[i * n + k] - w)) <= tol * m)) return str("global ", d.loc[rank][i].g, "[", k, "] attribute ", a, ": ", f[i * n + k], " instead of ", w); } return ""; }
  std::vector<K> global(const V& v) const { auto all = gatherAll<K>(P, flatten<K>(v)); std::vector<K> u(N * n); for (int p = 0; p < P; ++p) for (size_t i = 0; i < d.n(p); ++i) if (d.loc[p][i].attr == Owner) for (size_t k = 0; k < n; ++k) u[d.loc[p][i].g * n + k] = all[p][i * n + k]; return u; }
};
#endif
