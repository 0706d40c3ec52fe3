// C08: preconditioners and sweep kernels against their dense-algebra definitions (dense, independent of ISTL).
#include "ref.hh"
#include "iluref.hh"
#include <dune/istl/matrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
using namespace ref; using vh::str;
using Dune::BlockVector; using Dune::FieldVector; using Dune::FieldMatrix; using Dune::BCRSMatrix; using Dune::BL;

// ---- block structure tree and the recursive definitions ------------------------------------------
struct Node { size_t off = 0, len = 0; std::vector<Node> kids; };
static Node scalars(size_t off, size_t n) { Node t; t.off = off; t.len = n; for (size_t i = 0; i < n; ++i) t.kids.push_back(Node{off + i, 1, {}}); return t; }
static Node blocks(size_t off, size_t N, size_t b) { Node t; t.off = off; t.len = N * b; for (size_t i = 0; i < N; ++i) t.kids.push_back(scalars(off + i * b, b)); return t; }
template<class K> struct Sweep {
  const DM<K>& A; double w; using V = std::vector<K>;
  V block(const Node& n, const V& rhs) const { DM<K> B(n.len, n.len); for (size_t i = 0; i < n.len; ++i) for (size_t j = 0; j < n.len; ++j) B(i, j) = A(n.off + i, n.off + j); V x; if (!solve(B, rhs, x)) throw Singular{}; return x; }
  // all local vectors are indexed relative to the node
  void sub(const Node& n, const Node& i, const Node& j, const V& x, V& rhs) const { for (size_t r = 0; r < i.len; ++r) for (size_t s = 0; s < j.len; ++s) rhs[r] -= A(i.off + r, j.off + s) * x[j.off - n.off + s]; }
  V get(const Node& n, const Node& k, const V& v) const { return V(v.begin() + (k.off - n.off), v.begin() + (k.off - n.off + k.len)); }
  void put(const Node& n, const Node& k, V& v, const V& y) const { std::copy(y.begin(), y.end(), v.begin() + (k.off - n.off)); }
  bool leaf(const Node& n, int l) const { return l == 0 || n.kids.empty(); }
  void gs(const Node& n, int l, V& x, const V& b) const {
    if (leaf(n, l)) { x = block(n, b); return; } V old = x;
    for (auto& k : n.kids) { V rhs = get(n, k, b); for (auto& j : n.kids) if (j.off != k.off) sub(n, k, j, x, rhs); V xi = get(n, k, x); gs(k, l - 1, xi, rhs); put(n, k, x, xi); }
    for (size_t i = 0; i < x.size(); ++i) x[i] = K(w) * x[i] + K(1 - w) * old[i]; }
  void sor(const Node& n, int l, V& x, const V& b, bool fwd) const {
    if (leaf(n, l)) { x = block(n, b); return; }
    for (size_t q = 0; q < n.kids.size(); ++q) { auto& k = n.kids[fwd ? q : n.kids.size() - 1 - q]; V rhs = get(n, k, b); for (auto& j : n.kids) sub(n, k, j, x, rhs); V v(k.len, K(0)); sor(k, l - 1, v, rhs, fwd); V xi = get(n, k, x); for (size_t i = 0; i < k.len; ++i) xi[i] += K(w) * v[i]; put(n, k, x, xi); } }
  void jac(const Node& n, int l, V& x, const V& b) const {
    if (leaf(n, l)) { x = block(n, b); return; } V nx = x;
    for (auto& k : n.kids) { V rhs = get(n, k, b); for (auto& j : n.kids) sub(n, k, j, x, rhs); V v(k.len, K(0)); jac(k, l - 1, v, rhs); V xi = get(n, k, x); for (size_t i = 0; i < k.len; ++i) xi[i] += K(w) * v[i]; put(n, k, nx, xi); }
    x = nx; }
  // triangular and diagonal solves: low = lower, unit = ignore the diagonal, d = only diagonal
  V tri(const Node& n, int l, const V& d, int kind, bool unit) const { // kind 0 lower 1 upper 2 diagonal
    if (leaf(n, l)) { V v = unit ? d : block(n, d); for (auto& e : v) e *= K(w); return v; }
    V v(n.len, K(0)); size_t m = n.kids.size();
    for (size_t q = 0; q < m; ++q) { size_t i = kind == 1 ? m - 1 - q : q; auto& k = n.kids[i]; V rhs = get(n, k, d); if (kind == 0) for (size_t j = 0; j < i; ++j) sub(n, k, n.kids[j], v, rhs); if (kind == 1) for (size_t j = i + 1; j < m; ++j) sub(n, k, n.kids[j], v, rhs); put(n, k, v, tri(k, l - 1, rhs, kind, unit)); }
    return v; }
};
template<class K> static void dominate(vh::Rng& g, DM<K>& D, std::set<size_t>* = nullptr) { for (size_t i = 0; i < D.r; ++i) { double s = 0; for (size_t j = 0; j < D.c; ++j) if (j != i) s += std::max(dabs(D(i, j)), dabs(D(j, i))); D(i, i) = K((g.coin() ? 1 : -1) * (s * g.real(0.6, 1.3) + g.real(0.3, 1))); } }
template<class B, class K> static B cut(const DM<K>& D, size_t r, size_t c) { B b; if constexpr (Dune::IsNumber<B>::value) b = D(r, c); else { b = K(0); for (int i = 0; i < Blk<B>::n; ++i) for (int j = 0; j < Blk<B>::m; ++j) if constexpr (requires { b.diagonal(i); }) { if (i == j) b.diagonal(i) = D(r + i, c + i); } else if constexpr (requires { b.scalar(); }) { if (i == 0 && j == 0) b.scalar() = D(r, c); } else b[i][j] = D(r + i, c + j); } return b; }

template<class K, class F> static void compareRun(vh::Case& c, const std::string& what, std::vector<K> x0, const std::vector<K>& ref, const std::vector<K>& got, double cond = 1) {
  double sc = maxabs(ref) + maxabs(x0); double e = maxdiff(ref, got); c.check(e <= 1e-9 * cond * (sc + 1e-30) + 1e-300 || !finite(ref), what, str("difference ", e, " of ", sc, " expected ", show(ref), " got ", show(got)));
}
struct Any {};
// run all sweep kernels and the sweeping preconditioners of one matrix/vector type
template<int l, bool tri, class Mat, class X, class K> static void sweeps(vh::Case& c, const Mat& A, const DM<K>& D, const Node& root, const X& shape, const std::string& tn) {
  auto& g = c.rng; double w = g.pick({1.0, 1.0, 0.7, 1.3, 0.25, -0.5}); Sweep<K> S{D, w}; size_t n = D.r; auto x0 = g.coin(0.3) ? std::vector<K>(n, K(0)) : randVec<K>(g, n, false), b0 = randVec<K>(g, n, false);
  X x(shape), b(shape); assign(b, b0); int sw = g.range(0, 4); std::string sfx = str("/", tn, "/l", l);
  c.add(str(" w=", w, " sweeps=", sw, " l=", l, " ", tn, " n=", n)); using F = Any;
  auto done = [&](const char* name, const std::vector<K>& ref) { compareRun<K, F>(c, str(name, sfx), x0, ref, flatten<K>(x)); c.check(flatten<K>(b) == b0, str(name, sfx, "/defect-modified")); };
  std::vector<K> r;
  try {
    assign(x, x0); dbgs(A, x, b, w, BL<l>()); r = x0; S.gs(root, l, r, b0); done("dbgs", r);
    assign(x, x0); bsorf(A, x, b, w, BL<l>()); r = x0; S.sor(root, l, r, b0, true); done("bsorf", r);
    assign(x, x0); bsorb(A, x, b, w, BL<l>()); r = x0; S.sor(root, l, r, b0, false); done("bsorb", r);
    assign(x, x0); dbjac(A, x, b, w, BL<l>()); r = x0; S.jac(root, l, r, b0); done("dbjac", r);
    if constexpr (l == 1) { assign(x, x0); dbgs(A, x, b, w); r = x0; S.gs(root, 1, r, b0); done("dbgs-default", r); assign(x, x0); bsorf(A, x, b, w); r = x0; S.sor(root, 1, r, b0, true); done("bsorf-default", r); assign(x, x0); bsorb(A, x, b, w); r = x0; S.sor(root, 1, r, b0, false); done("bsorb-default", r); assign(x, x0); dbjac(A, x, b, w); r = x0; S.jac(root, 1, r, b0); done("dbjac-default", r); }
    auto rep = [&](auto&& p, const char* name, auto step) { assign(x, x0); p.pre(x, b); p.apply(x, b); p.post(x); r = x0; for (int i = 0; i < sw; ++i) step(r); done(name, r); };
    if constexpr (requires { typename Mat::ConstRowIterator; }) {
    rep(Dune::SeqJac<Mat, X, X, l>(A, sw, w), "SeqJac", [&](auto& v) { S.jac(root, l, v, b0); });
    rep(Dune::SeqSOR<Mat, X, X, l>(A, sw, w), "SeqSOR", [&](auto& v) { S.sor(root, l, v, b0, true); });
    rep(Dune::SeqGS<Mat, X, X, l>(A, sw, w), "SeqGS", [&](auto& v) { S.sor(root, l, v, b0, true); });
    rep(Dune::SeqSSOR<Mat, X, X, l>(A, sw, w), "SeqSSOR", [&](auto& v) { S.sor(root, l, v, b0, true); S.sor(root, l, v, b0, false); });
    { Dune::SeqSOR<Mat, X, X, l> p(A, sw, w); assign(x, x0); p.template apply<false>(x, b); r = x0; for (int i = 0; i < sw; ++i) S.sor(root, l, r, b0, false); done("SeqSOR-backward", r); assign(x, x0); p.template apply<true>(x, b); r = x0; for (int i = 0; i < sw; ++i) S.sor(root, l, r, b0, true); done("SeqSOR-forward", r); } }
    if constexpr (tri) if constexpr (!Dune::IsNumber<typename Mat::block_type>::value) {
      Sweep<K> S1{D, 1.0}; K wk = K(w);
      assign(x, x0); bltsolve(A, x, b, BL<l>()); done("bltsolve", S1.tri(root, l, b0, 0, false)); assign(x, x0); bltsolve(A, x, b, wk, BL<l>()); done("bltsolve-w", S.tri(root, l, b0, 0, false));
      assign(x, x0); butsolve(A, x, b, BL<l>()); done("butsolve", S1.tri(root, l, b0, 1, false)); assign(x, x0); butsolve(A, x, b, wk, BL<l>()); done("butsolve-w", S.tri(root, l, b0, 1, false));
      assign(x, x0); ubltsolve(A, x, b, BL<l>()); done("ubltsolve", S1.tri(root, l, b0, 0, true)); assign(x, x0); ubltsolve(A, x, b, wk, BL<l>()); done("ubltsolve-w", S.tri(root, l, b0, 0, true));
      assign(x, x0); ubutsolve(A, x, b, BL<l>()); done("ubutsolve", S1.tri(root, l, b0, 1, true)); assign(x, x0); ubutsolve(A, x, b, wk, BL<l>()); done("ubutsolve-w", S.tri(root, l, b0, 1, true));
      assign(x, x0); bdsolve(A, x, b, BL<l>()); done("bdsolve", S1.tri(root, l, b0, 2, false)); assign(x, x0); bdsolve(A, x, b, wk, BL<l>()); done("bdsolve-w", S.tri(root, l, b0, 2, false));
      if constexpr (l == 1) { assign(x, x0); bltsolve(A, x, b); done("bltsolve-default", S1.tri(root, l, b0, 0, false)); assign(x, x0); butsolve(A, x, b, wk); done("butsolve-default-w", S.tri(root, l, b0, 1, false)); assign(x, x0); bdsolve(A, x, b); done("bdsolve-default", S1.tri(root, l, b0, 2, false)); assign(x, x0); ubltsolve(A, x, b); done("ubltsolve-default", S1.tri(root, l, b0, 0, true)); assign(x, x0); ubutsolve(A, x, b, wk); done("ubutsolve-default-w", S.tri(root, l, b0, 1, true)); }
    }
  } catch (const Singular&) { return; }
  c.sig(str(tn, "/", l, "/", n, "/", w, "/", sw, "/", root.kids.size()));
}
// sparse matrix with random structurally unsymmetric pattern that has a diagonal
template<class B> static Sp<B> sys(vh::Rng& g, size_t N, bool sym = false) {
  using K = typename Blk<B>::K; std::string kind; Pattern p = sym ? symPattern(g, N, &kind) : randPattern(g, N, N, true, &kind); auto s = Sp<B>::make(g, N, N, p, [](vh::Rng& r) { return realVal<K>(r); }); s.kind = kind;
  if (sym) for (auto& e : s.v) if (e.first.first > e.first.second) { DM<K> t(Blk<B>::n, Blk<B>::n); Blk<B>::put(s.v[{e.first.second, e.first.first}], t, 0, 0); e.second = cut<B>(t.T(), 0, 0); } else if (e.first.first == e.first.second) { DM<K> t(Blk<B>::n, Blk<B>::n); Blk<B>::put(e.second, t, 0, 0); e.second = cut<B>(K(0.5) * (t + t.T()), 0, 0); }
  if (sym) s.rebuildDense(); dominate(g, s.D); if constexpr (requires(B b) { b.scalar(); }) { for (size_t i = 0; i < N; ++i) for (int k = 1; k < Blk<B>::n; ++k) s.D(i * Blk<B>::n + k, i * Blk<B>::n + k) = s.D(i * Blk<B>::n, i * Blk<B>::n); }
  for (size_t i = 0; i < N; ++i) s.v[{i, i}] = cut<B>(s.D, i * Blk<B>::n, i * Blk<B>::n); return s;
}
// ---- incomplete factorisations on dense blocks (BM, fill, iluApply in iluref.hh) ------------------------
template<class K> static std::vector<K> ildlApply(BM<K> M, const Pattern& p, const std::vector<K>& d, double w) {
  size_t N = M.N; std::vector<std::vector<DM<K>>> L(N, std::vector<DM<K>>(N, DM<K>(M.b, M.b))); std::vector<DM<K>> Dg(N);
  for (size_t i = 0; i < N; ++i) { for (size_t j = 0; j < i; ++j) if (p[i].count(j)) { DM<K> t = M.a[i][j]; for (size_t k = 0; k < j; ++k) if (p[i].count(k) && p[j].count(k)) t = t - L[i][k].mul(Dg[k]).mul(L[j][k].T()); L[i][j] = t.mul(inv_(Dg[j])); }
    Dg[i] = M.a[i][i]; for (size_t k = 0; k < i; ++k) if (p[i].count(k)) Dg[i] = Dg[i] - L[i][k].mul(Dg[k]).mul(L[i][k].T()); }
  std::vector<K> v(d.size(), K(0)); for (size_t i = 0; i < N; ++i) { auto r = M.get(d, i); for (size_t j = 0; j < i; ++j) if (p[i].count(j)) M.sub(r, L[i][j].mul(M.get(v, j))); M.put(v, i, r); }
  for (size_t i = 0; i < N; ++i) M.put(v, i, inv_(Dg[i]).mul(M.get(v, i)));
  for (size_t i = N; i-- > 0;) { auto r = M.get(v, i); for (size_t j = i + 1; j < N; ++j) if (p[j].count(i)) M.sub(r, L[j][i].T().mul(M.get(v, j))); M.put(v, i, r); }
  for (auto& e : v) e *= K(w); return v; }
template<class K> static std::vector<K> diluApply(BM<K> M, const Pattern& p, const std::vector<K>& d, double w) { // M = (D+L) D^-1 (D+U)
  size_t N = M.N; std::vector<DM<K>> Di(N); for (size_t i = 0; i < N; ++i) { DM<K> t = M.a[i][i]; for (size_t j = 0; j < i; ++j) if (p[i].count(j) && p[j].count(i)) t = t - M.a[i][j].mul(Di[j]).mul(M.a[j][i]); Di[i] = inv_(t); }
  std::vector<K> v(d.size(), K(0)); for (size_t i = 0; i < N; ++i) { auto r = M.get(d, i); for (size_t j = 0; j < i; ++j) M.sub(r, M.a[i][j].mul(M.get(v, j))); M.put(v, i, Di[i].mul(r)); }
  for (size_t i = N; i-- > 0;) { std::vector<K> r(M.b, K(0)); for (size_t j = i + 1; j < N; ++j) { auto t = M.a[i][j].mul(M.get(v, j)); for (size_t k = 0; k < M.b; ++k) r[k] += t[k]; } auto y = M.get(v, i); M.sub(y, Di[i].mul(r)); M.put(v, i, y); }
  for (auto& e : v) e *= K(w); return v; }

template<class B, class VB> static void factor(vh::Case& c, const std::string& tn) {
  using K = typename Blk<B>::K; using Mat = BCRSMatrix<B>; using X = BlockVector<VB>; auto& g = c.rng; size_t N = g.coin(0.05) ? 0 : g.range(1, 10); auto s = sys<B>(g, N, g.coin(0.4)); int mode = -1; Mat A; mode = build(A, s, g); const auto s0 = s;
  double w = g.pick({1.0, 1.0, 0.7, 1.3, -0.5, 0.0, 1 + 1e-12}); int n = g.pick({0, 0, 1, 1, 2, 3, 4, 20}); bool resort = g.coin(); size_t b = Blk<B>::n;
  c.note(str(tn, " ", s.text(), " ", modeName(mode), " w=", w, " n=", n, " resort=", resort)); BM<K> M(s, b); auto d0 = randVec<K>(g, N * b, false), x0 = randVec<K>(g, N * b, false); X x(N), d(N); assign(d, d0);
  auto done = [&](const char* name, const std::vector<K>& ref) { compareRun<K, Any>(c, str(name, "/", tn), std::vector<K>(), ref, flatten<K>(x)); c.check(flatten<K>(d) == d0, str(name, "/", tn, "/defect-modified")); auto e = compare(A, s0); c.check(e.empty(), str(name, "/", tn, "/matrix-modified"), e); };
  try {
    { auto q = fill(s.p, n); auto ref = iluApply(M, q, d0, w); std::unique_ptr<Dune::SeqILU<Mat, X, X>> pr; if (n == 0 && g.coin()) pr = std::make_unique<Dune::SeqILU<Mat, X, X>>(A, w, resort); else pr = std::make_unique<Dune::SeqILU<Mat, X, X>>(A, n, w, resort);
      for (int rep = 0; rep < 2; ++rep) { assign(x, x0); pr->pre(x, d); pr->apply(x, d); pr->post(x); done(resort ? "SeqILU-crs" : "SeqILU", ref); }
      if (n > 0) { Mat F; F.setBuildMode(Mat::row_wise); if (g.coin()) F.setSize(N, N); else F.setSize(N, N, nnz(q) + g.range(0, 3)); Dune::ILU::blockILUDecomposition(A, n, F); bool same = F.N() == N; for (size_t i = 0; same && i < N; ++i) { if (F[i].size() != q[i].size()) same = false; auto it = q[i].begin(); if (same) for (auto j = F[i].begin(); j != F[i].end(); ++j, ++it) if (j.index() != *it) same = false; } c.check(same, str("blockILUDecomposition/pattern/", tn)); 
        if (n == 1) { // the classical level-1 fill, independent of the definition of generations for higher orders
          std::vector<std::set<size_t>> lev(s.p); for (size_t i = 0; i < N; ++i) for (auto k : s.p[i]) if (k < i) for (auto j : s.p[k]) if (j > k) lev[i].insert(j);
          size_t cnt = 0; for (size_t i = 0; i < N; ++i) { for (auto j : lev[i]) c.check(F.exists(i, j), str("blockILUDecomposition/misses-level1-fill/", tn)); cnt += lev[i].size(); } c.check(F.nonzeroes() == cnt, str("blockILUDecomposition/level1/", tn)); } } }
    if constexpr (!(requires(B t) { t.diagonal(0); }) && !(requires(B t) { t.scalar(); })) {
      if constexpr (!Dune::IsNumber<B>::value) { auto ref = diluApply(M, s.p, d0, w); Dune::SeqDILU<Mat, X, X> pr(A, w); for (int rep = 0; rep < 2; ++rep) { assign(x, x0); pr.pre(x, d); pr.apply(x, d); pr.post(x); done("SeqDILU", ref); } }
      // ILDL uses the lower half only: give it any values in the upper half
      auto t = s.p; BM<K> ML = M; for (size_t i = 0; i < N; ++i) ML.a[i][i] = K(0.5) * (ML.a[i][i] + ML.a[i][i].T()); Mat As(A); for (size_t i = 0; i < N; ++i) As[i][i] = cut<B>(ML.a[i][i], 0, 0);
      auto ref = ildlApply(ML, s.p, d0, w); { Dune::SeqILDL<Mat, X, X> pr(As, w); for (int rep = 0; rep < 2; ++rep) { assign(x, x0); pr.pre(x, d); pr.apply(x, d); pr.post(x); done("SeqILDL", ref); } }
      { Mat F(As); Dune::bildl_decompose(F); assign(x, x0); Dune::bildl_backsolve(F, x, d); auto r1 = ildlApply(ML, s.p, d0, 1.0); done("bildl_backsolve", r1); }
    }
    { Dune::Richardson<X, X> r(w); assign(x, x0); r.pre(x, d); r.apply(x, d); r.post(x); std::vector<K> ref(d0); for (auto& e : ref) e *= K(w); done("Richardson", ref); }
    { Dune::MatrixAdapter<Mat, X, X> op(A); Dune::Richardson<X, X> rich; Dune::LoopSolver<X> loop(op, rich, 1e-30, 1, 0); // one Richardson step as inverse operator
      Dune::InverseOperator2Preconditioner<Dune::LoopSolver<X>, Dune::SolverCategory::sequential> pr(loop); assign(x, x0); pr.pre(x, d); pr.apply(x, d); pr.post(x); auto Ax = s.D.mul(x0); std::vector<K> ref(x0); for (size_t i = 0; i < ref.size(); ++i) ref[i] += d0[i] - Ax[i]; if (N) done("InverseOperator2Preconditioner", ref); }
  } catch (const Singular&) { return; }
  c.sig(str(tn, "/", N, "/", nnz(s.p), "/", s.kind, "/", n, "/", w, "/", resort));
}
// missing or singular diagonal blocks
template<class B, class VB> static void bad(vh::Case& c, const std::string& tn) {
  using K = typename Blk<B>::K; using Mat = BCRSMatrix<B>; using X = BlockVector<VB>; auto& g = c.rng; size_t N = g.range(1, 7), k = g.coin(0.4) ? N - 1 : g.range(0, N - 1); bool missing = g.coin() || Blk<B>::n == 3; auto s = sys<B>(g, N); std::string kind = missing ? "missing" : "singular";
  if (missing) { s.p[k].erase(k); s.v.erase({k, k}); } else { for (size_t i = 0; i < N; ++i) { if (i != k) { s.v.erase({k, i}); s.p[k].erase(i); s.p[i].erase(k); s.v.erase({i, k}); } } B z; z = K(0); s.v[{k, k}] = z; }
  s.rebuildDense(); Mat A; build(A, s, g); X x(N), d(N); auto d0 = randVec<K>(g, N * Blk<B>::n, false); assign(d, d0); int n = g.range(1, 3); c.note(str(tn, " ", kind, " diagonal in row ", k, " ", s.text(), " n=", n));
  auto thr = [&](const char* name, auto f) { bool t = false; try { x = K(0); f(); } catch (const Dune::Exception&) { t = true; } c.check(t, str(name, "/", kind, "/", tn), "no exception"); };
  thr("SeqILU", [&] { Dune::SeqILU<Mat, X, X> p(A, 1.0); }); 
  if (!missing) thr("SeqILU-n", [&] { Dune::SeqILU<Mat, X, X> p(A, n, 1.0); });
  thr("SeqILDL", [&] { Dune::SeqILDL<Mat, X, X> p(A, 1.0); });
  thr("bildl_decompose", [&] { Mat F(A); Dune::bildl_decompose(F); });
  // the remaining ones look for a missing diagonal only with checking enabled
#ifdef DUNE_ISTL_WITH_CHECKING
  constexpr bool chk = true;
#else
  constexpr bool chk = false;
#endif
  if constexpr (!Dune::IsNumber<B>::value) if (chk || !missing) { thr("SeqDILU", [&] { Dune::SeqDILU<Mat, X, X> p(A, 1.0); });
  thr("SeqJac", [&] { Dune::SeqJac<Mat, X, X> p(A, 1, 1.0); p.apply(x, d); });
  thr("SeqSOR", [&] { Dune::SeqSOR<Mat, X, X> p(A, 1, 1.0); p.apply(x, d); });
  thr("SeqSSOR", [&] { Dune::SeqSSOR<Mat, X, X> p(A, 1, 1.0); p.apply(x, d); }); }
  c.sig(str(tn, "/", kind, "/", N, "/", k, "/", nnz(s.p)));
}

template<class B, class VB, int l> static void flatCase(vh::Case& c, const char* tn) { using K = typename Blk<B>::K; auto& g = c.rng; size_t N = g.coin(0.05) ? 0 : g.range(1, 8); auto s = sys<B>(g, N); BCRSMatrix<B> A; int mode = build(A, s, g); c.note(str(s.text(), " ", modeName(mode))); BlockVector<VB> sh(N); sweeps<l, l == 1>(c, A, s.D, blocks(0, N, Blk<B>::n), sh, tn); auto e = compare(A, s); c.check(e.empty(), "matrix-modified", e); (void)sizeof(K); }

#if PART == 0
VGROUP("sweep-d1", 600, 24000) { flatCase<FieldMatrix<double, 1, 1>, FieldVector<double, 1>, 1>(c, "fm1"); }
VGROUP("sweep-d", 400, 24000) { flatCase<double, double, 1>(c, "scalar"); }
VGROUP("sweep-d2", 600, 24000) { flatCase<FieldMatrix<double, 2, 2>, FieldVector<double, 2>, 1>(c, "fm2"); }
VGROUP("sweep-d3l2", 600, 24000) { flatCase<FieldMatrix<double, 3, 3>, FieldVector<double, 3>, 2>(c, "fm3"); }
VGROUP("sweep-c2", 500, 16000) { flatCase<FieldMatrix<std::complex<double>, 2, 2>, FieldVector<std::complex<double>, 2>, 1>(c, "cfm2"); }
VGROUP("sweep-sid", 300, 12000) { flatCase<Dune::ScaledIdentityMatrix<double, 2>, FieldVector<double, 2>, 1>(c, "sid2"); }
VGROUP("sweep-dia", 300, 12000) { flatCase<Dune::DiagonalMatrix<double, 2>, FieldVector<double, 2>, 1>(c, "diag2"); }
VGROUP("sweep-dense", 400, 12000) { using B = FieldMatrix<double, 2, 2>; auto& g = c.rng; size_t N = g.range(1, 6); auto s = sys<B>(g, N); Dune::Matrix<B> A(N, N); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = cut<B>(s.D, 2 * i, 2 * j); BlockVector<FieldVector<double, 2>> sh(N); c.note("dense"); sweeps<1, true>(c, A, s.D, blocks(0, N, 2), sh, "Matrix"); }
VGROUP("sweep-banded", 400, 12000) { using B = FieldMatrix<double, 2, 2>; auto& g = c.rng; int N = g.range(1, 7); Sp<B> s; bool bd = g.coin(); Pattern p(N); for (int i = 0; i < N; ++i) { p[i].insert(i); if (!bd) { if (i) p[i].insert(i - 1); if (i + 1 < N) p[i].insert(i + 1); } } s = Sp<B>::make(g, N, N, p, [](vh::Rng& r) { return r.real(-1, 1); }); dominate(g, s.D); for (int i = 0; i < N; ++i) s.v[{i, i}] = cut<B>(s.D, 2 * i, 2 * i); BlockVector<FieldVector<double, 2>> sh(N); c.note(bd ? "bd" : "btd");
  if (bd) { Dune::BDMatrix<B> A(N); setValues(A, s); sweeps<1, true>(c, A, s.D, blocks(0, N, 2), sh, "BDMatrix"); } else { Dune::BTDMatrix<B> A(N); setValues(A, s); sweeps<1, true>(c, A, s.D, blocks(0, N, 2), sh, "BTDMatrix"); } }
#elif PART == 1
// nested sparse matrices with inner sizes that vary from block row to block row
template<int l, int bs> static void nested(vh::Case& c) {
  auto& g = c.rng; using B = FieldMatrix<double, bs, bs>; using In = BCRSMatrix<B>; using Mat = BCRSMatrix<In>; using X = BlockVector<BlockVector<FieldVector<double, bs>>>; size_t N = g.range(1, 4); bool equal = g.coin(0.3); size_t e0 = g.range(1, 4); std::vector<size_t> sz(N), of(N + 1, 0); for (size_t i = 0; i < N; ++i) { sz[i] = equal ? e0 : g.range(1, 4); of[i + 1] = of[i] + sz[i] * bs; }
  Pattern P = randPattern(g, N, N, true); DM<double> D(of[N], of[N]); std::map<std::pair<size_t, size_t>, Pattern> ip; for (size_t i = 0; i < N; ++i) for (auto j : P[i]) { auto p = randPattern(g, sz[i], sz[j], i == j); ip[{i, j}] = p; for (size_t a = 0; a < sz[i]; ++a) for (auto q : p[a]) for (int r = 0; r < bs; ++r) for (int t = 0; t < bs; ++t) D(of[i] + a * bs + r, of[j] + q * bs + t) = g.real(-1, 1); }
  dominate(g, D); Sp<double> os; os.N = os.M = N; os.p = P; Mat A; buildPattern(A, os, g, g.pick({int(RowUnknown), int(Random), int(SetIdx)})); Node root; root.len = of[N];
  for (size_t i = 0; i < N; ++i) { root.kids.push_back(blocks(of[i], sz[i], bs)); for (auto j : P[i]) { Sp<B> is; is.N = sz[i]; is.M = sz[j]; is.p = ip[{i, j}]; for (size_t a = 0; a < sz[i]; ++a) for (auto q : is.p[a]) is.v[{a, q}] = cut<B>(D, of[i] + a * bs, of[j] + q * bs); build(A[i][j], is, g, g.pick({int(RowUnknown), int(Random), int(SetIdx)})); } }
  X sh(N); for (size_t i = 0; i < N; ++i) sh[i].resize(sz[i]); c.note(str("nested N=", N, " equal=", equal)); sweeps<l, l == 2>(c, A, D, root, sh, str("nested", bs)); }
VGROUP("nested-l2", 750, 24000) { nested<2, 1>(c); }
VGROUP("nested-l2b", 750, 24000) { nested<2, 2>(c); }
VGROUP("nested-l3", 600, 24000) { nested<3, 2>(c); }
template<int l> static void multi(vh::Case& c) {
  using namespace Dune; auto& g = c.rng; using A11 = BCRSMatrix<FieldMatrix<double, 2, 2>>; using A12 = BCRSMatrix<FieldMatrix<double, 2, 1>>; using A21 = BCRSMatrix<FieldMatrix<double, 1, 2>>; using A22 = BCRSMatrix<FieldMatrix<double, 1, 1>>; using Mat = MultiTypeBlockMatrix<MultiTypeBlockVector<A11, A12>, MultiTypeBlockVector<A21, A22>>; using X = MultiTypeBlockVector<BlockVector<FieldVector<double, 2>>, BlockVector<FieldVector<double, 1>>>; using namespace Indices;
  size_t n1 = g.range(1, 5), n2 = g.range(1, 5); DM<double> D(2 * n1 + n2, 2 * n1 + n2); Pattern p[4] = {randPattern(g, n1, n1, true), randPattern(g, n1, n2), randPattern(g, n2, n1), randPattern(g, n2, n2, true)};
  auto fillD = [&](const Pattern& q, size_t ro, size_t co, int rb, int cb) { for (size_t i = 0; i < q.size(); ++i) for (auto j : q[i]) for (int r = 0; r < rb; ++r) for (int t = 0; t < cb; ++t) D(ro + i * rb + r, co + j * cb + t) = g.real(-1, 1); }; fillD(p[0], 0, 0, 2, 2); fillD(p[1], 0, 2 * n1, 2, 1); fillD(p[2], 2 * n1, 0, 1, 2); fillD(p[3], 2 * n1, 2 * n1, 1, 1); dominate(g, D); Mat A;
  auto bld = [&](auto& S, const Pattern& q, size_t M, size_t ro, size_t co) { using BB = typename std::decay_t<decltype(S)>::block_type; Sp<BB> s; s.N = q.size(); s.M = M; s.p = q; for (size_t i = 0; i < q.size(); ++i) for (auto j : q[i]) s.v[{i, j}] = cut<BB>(D, ro + i * Blk<BB>::n, co + j * Blk<BB>::m); build(S, s, g); };
  bld(A[_0][_0], p[0], n1, 0, 0); bld(A[_0][_1], p[1], n2, 0, 2 * n1); bld(A[_1][_0], p[2], n1, 2 * n1, 0); bld(A[_1][_1], p[3], n2, 2 * n1, 2 * n1); X sh; sh[_0].resize(n1); sh[_1].resize(n2); Node root; root.len = D.r; root.kids = {blocks(0, n1, 2), blocks(2 * n1, n2, 1)};
  c.note(str("multitype ", n1, "+", n2)); sweeps<l, false>(c, A, D, root, sh, "multitype"); }
VGROUP("multi-l2", 750, 24000) { multi<2>(c); }
VGROUP("multi-l3", 500, 16000) { multi<3>(c); }
#elif PART == 2
VGROUP("factor-d", 750, 32000) { factor<double, double>(c, "scalar"); }
VGROUP("factor-d1", 750, 32000) { factor<FieldMatrix<double, 1, 1>, FieldVector<double, 1>>(c, "fm1"); }
VGROUP("factor-d2", 750, 32000) { factor<FieldMatrix<double, 2, 2>, FieldVector<double, 2>>(c, "fm2"); }
VGROUP("factor-d4", 400, 16000) { factor<FieldMatrix<double, 4, 4>, FieldVector<double, 4>>(c, "fm4"); }
VGROUP("factor-c2", 600, 24000) { factor<FieldMatrix<std::complex<double>, 2, 2>, FieldVector<std::complex<double>, 2>>(c, "cfm2"); }
VGROUP("bad-fm4", 500, 16000) { bad<FieldMatrix<double, 4, 4>, FieldVector<double, 4>>(c, "fm4"); }
#elif PART == 3
// compiled with checking enabled: missing and singular diagonal blocks of any size (dune-common inverts singular 3x3 blocks silently)
VGROUP("bad-d", 500, 16000) { bad<double, double>(c, "scalar"); }
VGROUP("bad-fm1", 500, 16000) { bad<FieldMatrix<double, 1, 1>, FieldVector<double, 1>>(c, "fm1"); }
VGROUP("bad-fm2", 500, 16000) { bad<FieldMatrix<double, 2, 2>, FieldVector<double, 2>>(c, "fm2"); }
VGROUP("bad-fm3", 300, 8000) { bad<FieldMatrix<double, 3, 3>, FieldVector<double, 3>>(c, "fm3"); }
VGROUP("factor-chk", 300, 8000) { factor<FieldMatrix<double, 2, 2>, FieldVector<double, 2>>(c, "fm2"); }
VGROUP("sweep-chk", 300, 8000) { flatCase<FieldMatrix<double, 2, 2>, FieldVector<double, 2>, 1>(c, "fm2"); }
#endif
