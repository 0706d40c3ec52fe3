// C13: read-only sharing and independent objects are race free (ThreadSanitizer) and give the sequential results.
#include "ref.hh"
#include <thread>
#include <atomic>
#include <dune/istl/bvector.hh>
#include <dune/istl/vbvector.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/scalarproducts.hh>
#include <dune/istl/multitypeblockmatrix.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/matrixindexset.hh>
#include <dune/istl/matrixmatrix.hh>
#include <dune/istl/matrixutils.hh>
#include <dune/istl/matrixmarket.hh>
#include <dune/istl/io.hh>
#include <dune/istl/foreach.hh>
#if PART == 2
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/overlappingschwarz.hh>
#include <dune/istl/solverfactory.hh>
#include <dune/istl/eigenvalue/poweriteration.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/kamg.hh>
#endif
using namespace ref; using vh::str; using namespace Dune;
typedef std::vector<double> Res; typedef std::function<Res()> Fn; struct Op { const char* name; Fn f; };
static std::atomic<unsigned> order_{0}, active_{0}, maxActive_{0};
// All threads start together; every operation is preceded by a random pause. Bookkeeping uses relaxed atomics only, so that it adds no synchronisation that could hide a race.
static void race(vh::Case& c, std::vector<Op>& ops, const std::string& what) {
  auto& g = c.rng; size_t T = g.range(2, 5), per = g.range(2, 5); std::vector<size_t> pool; size_t sub = g.coin() ? g.range(1, 3) : ops.size(); for (size_t i = 0; i < sub; ++i) pool.push_back(sub == ops.size() ? i : g.range(0, ops.size() - 1));
  std::vector<std::vector<size_t>> plan(T); for (auto& p : plan) for (size_t k = 0; k < per; ++k) p.push_back(g.pick(pool)); std::set<size_t> used; for (auto& p : plan) used.insert(p.begin(), p.end()); std::map<size_t, Res> want; std::string names; for (auto u : used) names += str(" ", ops[u].name);
  c.note(what + str(" threads=", T, names)); bool seqFirst = g.coin(); if (seqFirst) for (auto u : used) want[u] = ops[u].f(); // otherwise the first use ever happens concurrently
  std::vector<std::vector<Res>> got(T); std::vector<std::vector<std::string>> err(T); std::vector<std::vector<int>> pause(T); std::vector<std::vector<unsigned>> seq(T); for (size_t t = 0; t < T; ++t) { got[t].resize(per); err[t].resize(per); seq[t].resize(per); for (size_t k = 0; k < per; ++k) pause[t].push_back(g.coin(0.5) ? 0 : g.range(1, 300)); }
  std::atomic<int> ready{0}; order_ = 0; active_ = 0; maxActive_ = 0; std::vector<std::thread> th;
  for (size_t t = 0; t < T; ++t) th.emplace_back([&, t] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < int(T)) std::this_thread::yield(); for (size_t k = 0; k < per; ++k) { for (volatile int i = 0; i < pause[t][k] * 20; ++i); if (pause[t][k] % 7 == 3) std::this_thread::yield(); unsigned a = active_.fetch_add(1, std::memory_order_relaxed) + 1, m = maxActive_.load(std::memory_order_relaxed); while (a > m && !maxActive_.compare_exchange_weak(m, a, std::memory_order_relaxed)); seq[t][k] = order_.fetch_add(1, std::memory_order_relaxed); try { got[t][k] = ops[plan[t][k]].f(); } catch (const Dune::Exception& e) { err[t][k] = e.what(); } catch (const std::exception& e) { err[t][k] = e.what(); } active_.fetch_sub(1, std::memory_order_relaxed); } });
  for (auto& t : th) t.join();
  if (!seqFirst) for (auto u : used) want[u] = ops[u].f();
  std::vector<std::pair<unsigned, size_t>> o; for (size_t t = 0; t < T; ++t) for (size_t k = 0; k < per; ++k) { o.push_back({seq[t][k], t}); auto& n = ops[plan[t][k]].name; c.check(err[t][k].empty(), what + "/exception-in-thread", str(n, ": ", err[t][k])); auto& w = want[plan[t][k]]; auto& r = got[t][k]; c.check(r.size() == w.size() && (w.empty() || !memcmp(r.data(), w.data(), w.size() * sizeof(double))), what + "/result-differs", str(n, ": ", show(r), " sequentially ", show(w))); }
  std::sort(o.begin(), o.end()); std::string il; for (auto& e : o) il += char('a' + e.second); c.sig(str(what, names, il, maxActive_)); c.ev(T * per); c.add(str(" interleaving=", il, " simultaneously-active=", maxActive_.load()));
}
template<class V> static Res R(const V& v) { return flatten<double>(v); }
static Res text(const std::string& s) { return {double(s.size()), double(std::hash<std::string>()(s) % 1000003)}; }
template<class B> static Sp<B> spd(vh::Rng& g, size_t N) { Sp<B> s; s.N = s.M = N; s.p = symPattern(g, N); constexpr int n = Blk<B>::n; for (size_t i = 0; i < N; ++i) s.p[i].insert(i); for (size_t i = 0; i < N; ++i) for (auto j : s.p[i]) if (j <= i) { DM<double> D(n, n); B b, bt; if constexpr (n == 1) { double v = i == j ? 2.0 * N : -g.real(0.1, 1); b = v; bt = v; } else { for (int r = 0; r < n; ++r) for (int k = 0; k < n; ++k) { double v = i == j ? (r == k ? 2.0 * n * N : 0.3) : -g.real(0.1, 1); b[r][k] = v; bt[k][r] = v; } } s.v[{i, j}] = b; if (i != j) s.v[{j, i}] = bt; } return s; }
using B2 = FieldMatrix<double, 2, 2>; using V2 = BlockVector<FieldVector<double, 2>>; using M2 = BCRSMatrix<B2>; using B1 = FieldMatrix<double, 1, 1>; using V1 = BlockVector<FieldVector<double, 1>>; using M1 = BCRSMatrix<B1>;

#if PART == 1
template<class M, class V> static void kernels(std::vector<Op>& ops, const M& A, const V& x, const V& y0) {
#define K0(k) ops.push_back({#k, [&] { V y(y0); A.k(x, y); return R(y); }});
#define K1(k) ops.push_back({#k, [&] { V y(y0); A.k(1.5, x, y); return R(y); }});
  K0(mv) K0(umv) K0(mmv) K1(usmv) K0(mtv) K0(umtv) K0(mmtv) K1(usmtv) K0(umhv) K0(mmhv) K1(usmhv)
  ops.push_back({"norms", [&] { return Res{double(A.frobenius_norm()), double(A.frobenius_norm2()), double(A.infinity_norm()), double(A.infinity_norm_real())}; }});
}
template<class B> static void matrices(vh::Case& c, const char* nm) {
  auto& g = c.rng; using M = BCRSMatrix<B>; using V = BlockVector<std::conditional_t<std::is_arithmetic_v<B>, double, FieldVector<double, Blk<B>::n>>>; size_t N = g.range(4, 40); auto s = spd<B>(g, N); M A_; build(A_, s, g); const M& A = A_; V x_(N), y_(N); assign(x_, randVec<double>(g, N * Blk<B>::n, false)); assign(y_, randVec<double>(g, N * Blk<B>::n, false)); const V &x = x_, &y0 = y_; std::vector<Op> ops;
  kernels(ops, A, x, y0); MatrixAdapter<M, V, V> op_(A); const auto& op = op_; SeqScalarProduct<V> sp_; const SeqScalarProduct<V>& sp = sp_;
  ops.push_back({"operator", [&] { V y(y0); op.apply(x, y); op.applyscaleadd(0.5, x, y); return R(y); }}); ops.push_back({"scalar-product", [&] { return Res{double(sp.dot(x, y0)), double(sp.norm(x))}; }});
  ops.push_back({"traverse", [&] { double t = 0; for (auto i = A.begin(); i != A.end(); ++i) for (auto j = i->begin(); j != i->end(); ++j) { if constexpr (std::is_arithmetic_v<B>) t += *j * j.index(); else t += (*j)[0][0] * j.index(); } return Res{t, double(A.nonzeroes()), double(A.N()), double(A.buildStage())}; }});
  ops.push_back({"lookup", [&] { double t = 0; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { t += A.exists(i, j) * (i + 3 * j); auto it = A[i].find(j); if (it != A[i].end()) t += it.index(); } return Res{t}; }});
  ops.push_back({"copy", [&] { M B_(A); B_ *= 2.0; V y(y0); B_.mv(x, y); return R(y); }}); ops.push_back({"assign", [&] { M B_; B_ = A; B_ += A; V y(y0); B_.mv(x, y); return R(y); }}); ops.push_back({"axpy", [&] { M B_(A); B_.axpy(0.25, A); V y(y0); B_.mv(x, y); return R(y); }});
  ops.push_back({"vector", [&] { V z(x); z.axpy(2.0, y0); z -= x; z *= 3.0; return Res{double(x.dot(y0)), double(x * y0), double(z.two_norm()), double(x.one_norm()), double(x.infinity_norm()), double(x.two_norm2()), double(z.one_norm_real())}; }}); ops.push_back({"vector-find", [&] { double t = 0; for (auto i = x.begin(); i != x.end(); ++i) t += i.index(); auto it = x.find(N / 2); return Res{t, double(it.index()), double(x.N()), double(x.dim())}; }});
  ops.push_back({"flat", [&] { double t = 0; flatMatrixForEach(A, [&](auto&& e, std::size_t i, std::size_t j) { t += e * (i + 2 * j); }); flatVectorForEach(x, [&](auto&& e, std::size_t i) { t += e * i; }); return Res{t}; }});
  ops.push_back({"print", [&] { std::ostringstream o; printmatrix(o, A, "A", "row", 8, 3); printvector(o, x, "x", "row", 2, 8, 3); return text(o.str()); }}); ops.push_back({"matlab", [&] { std::ostringstream o; writeMatrixToMatlabHelper(A, 0, 0, o); writeVectorToMatlabHelper(x, o); return text(o.str()); }}); ops.push_back({"svg", [&] { std::ostringstream o; writeSVGMatrix(A, o); return text(o.str()); }});
  if constexpr (!std::is_arithmetic_v<B>) { ops.push_back({"matmult", [&] { M C; matMultMat(C, A, A); V y(y0); C.mv(x, y); return R(y); }}); ops.push_back({"matmult-transposed", [&] { M C, D; transposeMatMultMat(C, A, A); matMultTransposeMat(D, A, A); V y(y0); C.mv(x, y); D.umv(x, y); return R(y); }});
    ops.push_back({"market", [&] { std::ostringstream o; o.precision(17); o << std::scientific; writeMatrixMarket(A, o); std::istringstream i(o.str()); M C; readMatrixMarket(C, i); V y(y0); C.mv(x, y); std::ostringstream p; p.precision(17); p << std::scientific; writeMatrixMarket(x, p); std::istringstream q(p.str()); V z; readMatrixMarket(z, q); y += z; return R(y); }});
    ops.push_back({"utils", [&] { return Res{double(countNonZeros(A)), double(MatrixDimension<M>::rowdim(A)), double(MatrixDimension<M>::coldim(A)), double(MatrixDimension<M>::rowdim(A, N / 2)), double(MatrixDimension<M>::coldim(A, 0))}; }}); }
  MatrixIndexSet is_(N, N, g.range(0, 6)); for (size_t i = 0; i < N; ++i) for (auto j : s.p[i]) is_.add(i, j); const MatrixIndexSet& is = is_;
  ops.push_back({"index-set", [&] { M C; is.exportIdx(C); C = 1.0; V y(y0); C.mv(x, y); MatrixIndexSet cp(is); double t = 0; for (size_t i = 0; i < N; ++i) t += cp.rowsize(i); auto r = R(y); r.push_back(t); r.push_back(is.size()); return r; }}); ops.push_back({"index-set-import", [&] { MatrixIndexSet n(N, N); n.import(A); double t = 0; for (size_t i = 0; i < N; ++i) t += n.rowsize(i) * i; return Res{t}; }});
  ops.push_back({"build", [&] { vh::Rng l(N); M C; build(C, s, l); V y(y0); C.mv(x, y); return R(y); }}); race(c, ops, str("matrix-", nm));
}
VGROUP("matrix-1x1", 400, 6000) { matrices<B1>(c, "1x1"); }
VGROUP("matrix-2x2", 400, 6000) { matrices<B2>(c, "2x2"); }
VGROUP("matrix-number", 400, 6000) { matrices<double>(c, "number"); }
VGROUP("matrix-other", 500, 6000) {
  auto& g = c.rng; std::vector<Op> ops; size_t N = g.range(2, 12); const double f = 0.5;
  Matrix<B2> D_(N, N); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) for (int r = 0; r < 2; ++r) for (int k = 0; k < 2; ++k) D_[i][j][r][k] = g.real(-1, 1); const Matrix<B2>& D = D_; V2 x_(N), y_(N); assign(x_, randVec<double>(g, 2 * N, false)); assign(y_, randVec<double>(g, 2 * N, false)); const V2 &x = x_, &y0 = y_;
  int which = g.range(0, 4);
  BTDMatrix<B2> T_(N); for (size_t i = 0; i < N; ++i) for (long j = std::max<long>(0, long(i) - 1); j <= std::min<long>(N - 1, i + 1); ++j) for (int r = 0; r < 2; ++r) for (int k = 0; k < 2; ++k) T_[i][j][r][k] = i == size_t(j) && r == k ? 6 : g.real(-1, 1); const BTDMatrix<B2>& T = T_; BDMatrix<B2> BD_(N); for (size_t i = 0; i < N; ++i) { BD_[i][i] = 0.3; BD_[i][i][0][0] = BD_[i][i][1][1] = 3 + i; } const BDMatrix<B2>& BD = BD_;
  auto s = spd<B2>(g, N); M2 A_; build(A_, s, g); using Nest = BCRSMatrix<M2>; using VN = BlockVector<V2>; Nest Q_; { Q_.setBuildMode(Nest::row_wise); Q_.setSize(2, 2); for (auto r = Q_.createbegin(); r != Q_.createend(); ++r) { r.insert(0); r.insert(1); } for (auto i = Q_.begin(); i != Q_.end(); ++i) for (auto j = i->begin(); j != i->end(); ++j) *j = A_; } const Nest& Q = Q_; VN X_(2), Y_(2); for (int i = 0; i < 2; ++i) { X_[i] = x_; Y_[i] = y_; } const VN &X = X_, &Y0 = Y_;
  using MR0 = MultiTypeBlockVector<M2, M2>; using MT = MultiTypeBlockMatrix<MR0, MR0>; using VT = MultiTypeBlockVector<V2, V2>; MT Z_; using namespace Indices; Z_[_0][_0] = A_; Z_[_0][_1] = A_; Z_[_1][_0] = A_; Z_[_1][_1] = A_; const MT& Z = Z_; VT U_, W_; U_[_0] = x_; U_[_1] = y_; W_ = U_; const VT &U = U_, &W0 = W_;
  std::string nm; if (which == 0) { nm = "dense"; kernels(ops, D, x, y0); ops.push_back({"dense-arith", [&] { Matrix<B2> E(D); E += D; E *= f; auto F = E.transpose(); V2 y(y0); F.mv(x, y); return R(y); }}); ops.push_back({"dense-product", [&] { auto E = D * D; V2 y(y0); E.mv(x, y); return R(y); }}); }
  if (which == 1) { nm = "tridiagonal"; kernels(ops, T, x, y0); ops.push_back({"btd-solve", [&] { V2 z(x), r(y0); T.solve(z, r); return R(z); }}); ops.push_back({"btd-copy", [&] { BTDMatrix<B2> E(T); E *= f; V2 y(y0); E.mv(x, y); return R(y); }}); }
  if (which == 2) { nm = "diagonal"; kernels(ops, BD, x, y0); ops.push_back({"bd-solve", [&] { V2 z(x); BD.solve(z, y0); return R(z); }}); ops.push_back({"bd-invert", [&] { BDMatrix<B2> E(BD); E.invert(); V2 y(y0); E.mv(x, y); return R(y); }}); }
  if (which == 3) { nm = "nested"; kernels(ops, Q, X, Y0); ops.push_back({"nested-copy", [&] { Nest E(Q); E *= f; VN y(Y0); E.mv(X, y); return R(y); }}); ops.push_back({"nested-vector", [&] { VN z(X); z.axpy(f, Y0); return Res{double(z.two_norm()), double(X * Y0), double(X.infinity_norm())}; }}); }
  if (which == 4) { nm = "multi-type"; ops.push_back({"mv", [&] { VT y(W0); Z.mv(U, y); Z.umv(U, y); Z.mmv(U, y); Z.usmv(f, U, y); return R(y); }}); ops.push_back({"mtv", [&] { VT y(W0); Z.mtv(U, y); Z.umtv(U, y); Z.mmtv(U, y); Z.usmtv(f, U, y); Z.umhv(U, y); return R(y); }}); ops.push_back({"norms", [&] { return Res{double(Z.frobenius_norm()), double(Z.infinity_norm()), double(U.two_norm()), double(U * W0), double(U.infinity_norm())}; }}); ops.push_back({"copy", [&] { MT E(Z); E *= f; VT y(W0); E.mv(U, y); y.axpy(f, U); return R(y); }}); }
  ops.push_back({"vector-window", [&] { V2 z(x); z.resize(N + 3); double t = 0; for (size_t i = 0; i < N; ++i) t += z[i][0]; return Res{t, double(z.N())}; }}); VariableBlockVector<double> vb_(N); for (auto i = vb_.createbegin(); i != vb_.createend(); ++i) i.setblocksize(1 + i.index() % 3); vb_ = 1.25; const auto& vb = vb_; ops.push_back({"variable-vector", [&] { VariableBlockVector<double> z(vb); z *= f; z += vb; return Res{double(z.two_norm()), double(z * vb), double(vb.infinity_norm()), double(vb.N())}; }});
  race(c, ops, nm);
}
#else
template<class M, class V> struct Sys { M A_; std::shared_ptr<MatrixAdapter<M, V, V>> op_; V b_, x0_; const M& A; const V& b; std::vector<Op> ops; size_t N;
  template<class S> Sys(const S& s, vh::Rng& g) : A(A_), b(b_), N(s.N) { build(A_, s, g); op_ = std::make_shared<MatrixAdapter<M, V, V>>(stackobject_to_shared_ptr(A)); b_.resize(N); assign(b_, randVec<double>(g, N * V::block_type::dimension, false)); }
  template<class P> void prec(const char* n, std::function<std::unique_ptr<P>()> mk) { ops.push_back({n, [this, mk] { auto p = mk(); V x(N), r(b); x = 0; p->pre(x, r); V v(N); v = 0; p->apply(v, r); auto o = R(v); v = 0; p->apply(v, r); p->post(x); for (double e : R(v)) o.push_back(e); return o; }}); }
  template<class SV> Fn solve_(std::function<std::unique_ptr<SV>(LinearOperator<V, V>&, Preconditioner<V, V>&)> mk) { return [this, mk] { SeqJac<M, V, V> p(A, 1, 0.9); auto s = mk(*op_, p); V x(N), r(b); x = 0; InverseOperatorResult res; s->apply(x, r, res); auto o = R(x); o.push_back(res.iterations); o.push_back(res.converged); return o; }; }
};
#define PREC(n, ...) S.template prec<__VA_ARGS__>
template<class B> static void systems(vh::Case& c, const char* nm) {
  auto& g = c.rng; using M = BCRSMatrix<B>; using V = BlockVector<FieldVector<double, Blk<B>::n>>; using IP = Preconditioner<V, V>; size_t N = g.range(4, 30); auto s = spd<B>(g, N); Sys<M, V> S(s, g); const M& A = S.A; using OpT = MatrixAdapter<M, V, V>; auto cop = std::shared_ptr<const OpT>(S.op_);
  int what = g.range(0, 3); std::string nn; auto& ops = S.ops; std::vector<std::set<size_t>> subs;
  if (what == 0) { nn = "preconditioners";
    S.template prec<IP>("jac", [&] { return std::make_unique<SeqJac<M, V, V>>(A, 2, 0.8); }); S.template prec<IP>("sor", [&] { return std::make_unique<SeqSOR<M, V, V>>(A, 2, 1.2); }); S.template prec<IP>("ssor", [&] { return std::make_unique<SeqSSOR<M, V, V>>(A, 2, 1.2); }); S.template prec<IP>("gs", [&] { return std::make_unique<SeqGS<M, V, V>>(A, 2, 1.0); });
    S.template prec<IP>("ilu0", [&] { return std::make_unique<SeqILU<M, V, V>>(A, 1.0); }); S.template prec<IP>("ilu1", [&] { return std::make_unique<SeqILU<M, V, V>>(A, 1, 1.0); }); S.template prec<IP>("ilu0-resort", [&] { return std::make_unique<SeqILU<M, V, V>>(A, 1.0, true); }); S.template prec<IP>("ildl", [&] { return std::make_unique<SeqILDL<M, V, V>>(A, 1.0); }); S.template prec<IP>("richardson", [&] { return std::make_unique<Richardson<V, V>>(0.5); });
    for (size_t i = 0; i < N; i += 3) { std::set<size_t> d; for (size_t j = i; j < std::min(N, i + 5); ++j) d.insert(j); subs.push_back(d); }
    using OS = SeqOverlappingSchwarz<M, V, MultiplicativeSchwarzMode, UMFPack<M>>; typename OS::subdomain_vector sv; for (auto& d : subs) sv.push_back(typename OS::subdomain_type(d.begin(), d.end())); S.template prec<IP>("schwarz", [&A, sv] { return std::make_unique<OS>(A, sv, 1.0, false); }); using OA = SeqOverlappingSchwarz<M, V, AdditiveSchwarzMode, UMFPack<M>>; S.template prec<IP>("schwarz-additive", [&A, sv] { return std::make_unique<OA>(A, sv, 0.5, true); });
    race(c, ops, str(nn, "-", nm)); }
  if (what == 1) { nn = "solvers"; using SV = InverseOperator<V, V>; using L = LinearOperator<V, V>; double red = 1e-8; int mi = 60;
    ops.push_back({"loop", S.template solve_<SV>([=](L& o, IP& p) { return std::make_unique<LoopSolver<V>>(o, p, red, mi, 0); })}); ops.push_back({"gradient", S.template solve_<SV>([=](L& o, IP& p) { return std::make_unique<GradientSolver<V>>(o, p, red, mi, 0); })}); ops.push_back({"cg", S.template solve_<SV>([=](L& o, IP& p) { return std::make_unique<CGSolver<V>>(o, p, red, mi, 0); })}); ops.push_back({"bicgstab", S.template solve_<SV>([=](L& o, IP& p) { return std::make_unique<BiCGSTABSolver<V>>(o, p, red, mi, 0); })}); ops.push_back({"minres", S.template solve_<SV>([=](L& o, IP& p) { return std::make_unique<MINRESSolver<V>>(o, p, red, mi, 0); })});
    ops.push_back({"gmres", S.template solve_<SV>([=](L& o, IP& p) { return std::make_unique<RestartedGMResSolver<V>>(o, p, red, 5, mi, 0); })}); ops.push_back({"fgmres", S.template solve_<SV>([=](L& o, IP& p) { return std::make_unique<RestartedFlexibleGMResSolver<V>>(o, p, red, 5, mi, 0); })}); ops.push_back({"gpcg", S.template solve_<SV>([=](L& o, IP& p) { return std::make_unique<GeneralizedPCGSolver<V>>(o, p, red, mi, 0, 4); })}); ops.push_back({"rfcg", S.template solve_<SV>([=](L& o, IP& p) { return std::make_unique<RestartedFCGSolver<V>>(o, p, red, mi, 0, 4); })}); ops.push_back({"cfcg", S.template solve_<SV>([=](L& o, IP& p) { return std::make_unique<CompleteFCGSolver<V>>(o, p, red, mi, 0, 4); })});
    race(c, ops, str(nn, "-", nm)); }
  if (what == 2) { nn = "direct"; auto dir = [&](auto mk) { return [&S, mk, N] { auto p = mk(); V x(N), r(S.b), y(N), q(S.b); InverseOperatorResult res; p->apply(x, r, res); p->apply(y, q, res); x += y; return R(x); }; };
    ops.push_back({"umfpack", dir([&A] { return std::make_unique<UMFPack<M>>(A, 0); })}); ops.push_back({"ldl", dir([&A] { return std::make_unique<LDL<M>>(A, 0); })}); ops.push_back({"spqr", dir([&A] { return std::make_unique<SPQR<M>>(A, 0); })}); ops.push_back({"superlu", dir([&A] { return std::make_unique<SuperLU<M>>(A, false); })}); ops.push_back({"cholmod", dir([&A] { auto p = std::make_unique<Cholmod<V>>(); p->setMatrix(A); return p; })}); ops.push_back({"umfpack-sub", [&] { UMFPack<M> u; std::set<size_t> d; for (size_t i = 0; i < N; i += 2) d.insert(i); u.setSubMatrix(A, d); std::vector<double> xx(d.size() * Blk<B>::n), bb(xx.size(), 1.0); u.apply(xx.data(), bb.data()); return xx; }});
    race(c, ops, str(nn, "-", nm)); }
  if (what == 3) { nn = "composed"; using Sm = SeqSSOR<M, V, V>; using Crit = Amg::CoarsenCriterion<Amg::SymmetricCriterion<M, Amg::FirstDiagonal>>; Crit cr(15, 5); cr.setDefaultValuesIsotropic(2); cr.setDebugLevel(0); typename Amg::AMG<OpT, V, Sm>::SmootherArgs sa; sa.iterations = 1; sa.relaxationFactor = 1;
    S.template prec<IP>("amg", [&S, cr, sa] { return std::make_unique<Amg::AMG<OpT, V, Sm>>(*S.op_, cr, sa); }); S.template prec<IP>("fastamg", [&S, cr, cop] { Amg::Parameters p(cr); p.setNoPreSmoothSteps(1); p.setNoPostSmoothSteps(1); return std::make_unique<Amg::FastAMG<OpT, V>>(cop, cr, p); }); S.template prec<IP>("kamg", [&S, cr, sa] { return std::make_unique<Amg::KAMG<OpT, V, Sm>>(*S.op_, cr, sa); });
    for (const char* sn : {"cgsolver", "bicgstabsolver", "restartedgmressolver", "umfpack"}) for (const char* pn : {"jac", "ilu", "amg"}) { if (std::string(sn) == "umfpack" && std::string(pn) != "jac") continue; ParameterTree cf; cf["type"] = sn; cf["reduction"] = "1e-8"; cf["maxit"] = "50"; cf["verbose"] = "0"; cf["restart"] = "5"; cf["preconditioner.type"] = pn; cf["preconditioner.verbosity"] = "0"; cf["preconditioner.coarsenTarget"] = "5"; ops.push_back({"factory", [&S, N, cf] { auto sl = getSolverFromFactory(S.op_, cf); V x(N), r(S.b); x = 0; InverseOperatorResult res; sl->apply(x, r, res); return R(x); }}); }
    if constexpr (Blk<B>::n == 1) {} ops.push_back({"power-iteration", [&] { PowerIteration_Algorithms<M, V> e(A, 200, 0); V x(N); x = 1.0; double l = 0; try { e.applyPowerIteration(1e-3, x, l); } catch (const Dune::ISTLError&) { l = -1; } auto o = R(x); o.push_back(l); return o; }});
    race(c, ops, str(nn, "-", nm)); }
}
static int once = (initSolverFactories<MatrixAdapter<M1, V1, V1>>(), initSolverFactories<MatrixAdapter<M2, V2, V2>>(), 0);
VGROUP("systems-1x1", 800, 10000) { systems<B1>(c, "1x1"); }
VGROUP("systems-2x2", 700, 8000) { systems<B2>(c, "2x2"); }
#endif
