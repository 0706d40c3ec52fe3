// Spying operator / preconditioner / scalar product, dense reference problems and the solver zoo.
#ifndef VH_SOLVERSPY_HH
#define VH_SOLVERSPY_HH
#include "ref.hh"
#include <dune/istl/solvers.hh>
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <optional>

namespace sp {
using namespace ref;
using vh::str;

struct Injected : std::runtime_error { int id; Injected(int i) : std::runtime_error(str("injected ", i)), id(i) {} };
struct Fault { enum Where { None, Op, Prec, Pre, Post, Dot } where = None; enum What { Throw, NaN, Inf } what = Throw; long at = 0; bool fired = false; };

// Everything the spies observe during one solve
template<class K> struct Log {
  DM<K> A, W; std::vector<double> D;                   // operator, fixed preconditioner, scalar product weights (dense model)
  std::vector<K> b0;                                    // rhs after pre()
  long pre = 0, post = 0, prec = 0, op = 0, norms = 0, dots = 0; bool precBeforePre = false, precAfterPost = false, nonzeroUpdate = false;
  long opAfterPost = 0;
  double maxNorm = 0; std::vector<std::string> order;
  std::vector<std::vector<K>> zs, ds;                   // outputs / defects of the preconditioner
  std::function<std::vector<K>(const std::vector<K>&, long)> flex; // variable preconditioner
  const void* xArg = nullptr; const void* bArg = nullptr; const void* preX = nullptr; const void* preB = nullptr; const void* postX = nullptr;
  std::function<void(const std::vector<K>&)> onPrec;    // called with the defect
  std::function<void(std::vector<K>&, std::vector<K>&)> onPre; // may change x and b
  Fault fault;
  void reset() { pre = post = prec = op = norms = dots = opAfterPost = 0; precBeforePre = precAfterPost = nonzeroUpdate = false; maxNorm = 0; zs.clear(); ds.clear(); fault.fired = false; }
  double norm(const std::vector<K>& v) const { double s = 0; for (size_t i = 0; i < v.size(); ++i) s += D[i] * dabs2(v[i]); return std::sqrt(s); }
  K dot(const std::vector<K>& x, const std::vector<K>& y) const { K s(0); for (size_t i = 0; i < x.size(); ++i) s += D[i] * (conj_(x[i]) * y[i]); return s; }
  std::vector<K> residual(const std::vector<K>& x) const { auto r = A.mul(x); for (size_t i = 0; i < r.size(); ++i) r[i] = b0[i] - r[i]; return r; }
  template<class V> void hit(Fault::Where w, long n, V* out) {
    if (fault.where != w || n != fault.at) return;
    fault.fired = true;
    if (fault.what == Fault::Throw) throw Injected(int(w) * 1000 + int(n));
    if (out && out->size()) (*out)[out->size() / 2] = K(fault.what == Fault::NaN ? std::nan("") : HUGE_VAL);
  }
};

template<class X, class K> struct SpyOp : Dune::LinearOperator<X, X> {
  Log<K>* L; explicit SpyOp(Log<K>* l) : L(l) {}
  void apply(const X& x, X& y) const override { long n = L->op++; auto in = flatten<K>(x); auto r = L->A.mul(in); L->hit(Fault::Op, n, &r); assign(y, r); if (L->post) L->opAfterPost++; }
  void applyscaleadd(K a, const X& x, X& y) const override { long n = L->op++; auto r = L->A.mul(flatten<K>(x)); auto o = flatten<K>(y); for (size_t i = 0; i < r.size(); ++i) o[i] += a * r[i]; L->hit(Fault::Op, n, &o); assign(y, o); if (L->post) L->opAfterPost++; }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; }
};
template<class X, class K> struct SpyPrec : Dune::Preconditioner<X, X> {
  Log<K>* L; explicit SpyPrec(Log<K>* l) : L(l) {}
  void pre(X& x, X& b) override { L->pre++; L->preX = &x; L->preB = &b; L->template hit<std::vector<K>>(Fault::Pre, 0, nullptr); if (L->onPre) { auto xv = flatten<K>(x), bv = flatten<K>(b); L->onPre(xv, bv); assign(x, xv); assign(b, bv); } L->b0 = flatten<K>(b); }
  void apply(X& v, const X& d) override {
    long n = L->prec++; if (!L->pre) L->precBeforePre = true; if (L->post) L->precAfterPost = true;
    auto in = flatten<K>(v); for (auto& e : in) if (!(e == K(0))) L->nonzeroUpdate = true;
    auto dd = flatten<K>(d); L->ds.push_back(dd); if (L->onPrec) L->onPrec(dd);
    auto z = L->flex ? L->flex(dd, n) : L->W.mul(dd); L->hit(Fault::Prec, n, &z); L->zs.push_back(z); assign(v, z);
  }
  void post(X& x) override { L->post++; L->postX = &x; L->template hit<std::vector<K>>(Fault::Post, 0, nullptr); }
  Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; }
};
template<class X, class K> struct SpySP : Dune::ScalarProduct<X> {
  Log<K>* L; explicit SpySP(Log<K>* l) : L(l) {}
  using Real = typename Dune::ScalarProduct<X>::real_type;
  K dot(const X& x, const X& y) const override { long n = L->dots++; K r = L->dot(flatten<K>(x), flatten<K>(y)); std::vector<K> o{r}; L->hit(Fault::Dot, n, &o); return o[0]; }
  Real norm(const X& x) const override { L->norms++; Real r = L->norm(flatten<K>(x)); if (r > L->maxNorm) L->maxNorm = r; return r; }
};

enum S { Loop, Gradient, CG, BiCGSTAB, MINRES, GMRes, FGMRes, GPCG, RFCG, CFCG, NS };
inline const char* sname(int s) { static const char* n[] = {"Loop", "Gradient", "CG", "BiCGSTAB", "MINRES", "GMRes", "FGMRes", "GPCG", "RestartedFCG", "CompleteFCG"}; return n[s]; }
inline bool inPlace(int s) { return s == Loop || s == Gradient || s == CG || s == BiCGSTAB || s == GPCG || s == RFCG || s == CFCG; }
inline bool needsSPD(int s) { return s == Gradient || s == CG || s == GPCG || s == RFCG || s == CFCG; }
inline bool hasRestart(int s) { return s == GMRes || s == FGMRes || s == GPCG || s == RFCG || s == CFCG; }

template<class X, class K> struct Rig {
  Log<K> L; std::shared_ptr<SpyOp<X, K>> op; std::shared_ptr<SpyPrec<X, K>> prec; std::shared_ptr<SpySP<X, K>> spr;
  Rig() : op(std::make_shared<SpyOp<X, K>>(&L)), prec(std::make_shared<SpyPrec<X, K>>(&L)), spr(std::make_shared<SpySP<X, K>>(&L)) {}
  // ctor: 0 shared pointers, 1 references with scalar product, 2 references without (Euclidean)
  std::unique_ptr<Dune::IterativeSolver<X, X>> solver(int s, double red, int restart, int maxit, int verb, int ctor, bool cond = false) {
    using namespace Dune;
#define MK(T, ...) { using Sv = T<X>; if (ctor == 0) return std::make_unique<Sv>(op, spr, prec, __VA_ARGS__); if (ctor == 1) return std::make_unique<Sv>(*op, *spr, *prec, __VA_ARGS__); return std::make_unique<Sv>(*op, *prec, __VA_ARGS__); }
    switch (s) {
      case Loop: MK(LoopSolver, red, maxit, verb)
      case Gradient: MK(GradientSolver, red, maxit, verb)
      case CG: if (cond) { using Sv = CGSolver<X>; if (ctor == 2) return std::make_unique<Sv>(*op, *prec, red, maxit, verb, true); if (ctor == 1) return std::make_unique<Sv>(*op, *spr, *prec, red, maxit, verb, true); return std::make_unique<Sv>(op, std::shared_ptr<Dune::ScalarProduct<X>>(spr), prec, red, maxit, verb, true); } MK(CGSolver, red, maxit, verb)
      case BiCGSTAB: MK(BiCGSTABSolver, red, maxit, verb)
      case MINRES: MK(MINRESSolver, red, maxit, verb)
      case GMRes: MK(RestartedGMResSolver, red, restart, maxit, verb)
      case FGMRes: MK(RestartedFlexibleGMResSolver, red, restart, maxit, verb)
      case GPCG: MK(GeneralizedPCGSolver, red, maxit, verb, restart)
      case RFCG: MK(RestartedFCGSolver, red, maxit, verb, restart)
      case CFCG: MK(CompleteFCGSolver, red, maxit, verb, restart)
    }
#undef MK
    return nullptr;
  }
};

// random orthogonal/unitary matrix by Gram-Schmidt
template<class K> DM<K> randUnitary(vh::Rng& g, size_t n) {
  DM<K> Q(n, n);
  for (size_t j = 0; j < n; ++j) { std::vector<K> v(n);
    for (;;) { for (auto& x : v) x = realVal<K>(g);
      for (int rep = 0; rep < 2; ++rep) for (size_t k = 0; k < j; ++k) { K s(0); for (size_t i = 0; i < n; ++i) s += conj_(Q(i, k)) * v[i]; for (size_t i = 0; i < n; ++i) v[i] -= s * Q(i, k); }
      double nn = norm2(v); if (nn > 1e-3) { for (size_t i = 0; i < n; ++i) Q(i, j) = v[i] / K(nn); break; } } }
  return Q;
}
template<class K> DM<K> fromSpectrum(vh::Rng& g, const std::vector<double>& ev) { size_t n = ev.size(); auto Q = randUnitary<K>(g, n); DM<K> A(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { K s(0); for (size_t k = 0; k < n; ++k) s += K(ev[k]) * Q(i, k) * conj_(Q(j, k)); A(i, j) = s; } for (size_t i = 0; i < n; ++i) { if constexpr (isC<K>::value) A(i, i) = A(i, i).real(); for (size_t j = 0; j < i; ++j) A(j, i) = conj_(A(i, j)); } return A; }
inline std::vector<double> spectrum(vh::Rng& g, size_t n, double cond, bool indef) {
  std::vector<double> e(n); long kind = g.range(0, 3);
  for (size_t i = 0; i < n; ++i) { double t = n > 1 ? double(i) / (n - 1) : 0; e[i] = kind == 0 ? 1 + (cond - 1) * t : kind == 1 ? std::pow(cond, t) : kind == 2 ? (i < n / 2 ? 1 + 0.01 * i : cond - 0.01 * i) : 1 + (cond - 1) * g.real(); if (indef && g.coin()) e[i] = -e[i]; }
  return e;
}
// A problem admissible for solver s: A = D^-1 S, W = D^-1 P with S Hermitian (definite) and P spd in the D inner product.
template<class K> struct Problem { size_t n; DM<K> A, W, S, P; std::vector<double> D; std::vector<K> x, b, x0; std::string text; };
template<class K> Problem<K> problem(vh::Rng& g, int s, size_t n, bool weighted, double cond = 50, bool identityPrec = false) {
  Problem<K> p; p.n = n; p.D.assign(n, 1.0); double sc = g.pick({1.0, 1.0, 1e-3, 1e3, 1e-6, 1e-14, 1e10}), wsc = g.pick({1.0, 1.0, 1e-2, 1e2, 1e4});
  if (weighted) { for (auto& d : p.D) d = g.pick({0.25, 0.5, 1.0, 2.0, 4.0}); }
  bool gen = s == BiCGSTAB || s == GMRes || s == FGMRes;
  bool indef = s == MINRES && g.coin();
  auto ev = spectrum(g, n, g.real(1.5, cond), indef); for (auto& e : ev) e *= sc;
  DM<K> S = fromSpectrum<K>(g, ev);
  bool few = g.coin(0.15); // scaled identities and integer diagonals: exact breakdowns
  if (few) { long k = g.range(1, 3); S = DM<K>(n, n); for (size_t i = 0; i < n; ++i) S(i, i) = K(g.range(1, k) * (indef && g.coin() ? -1.0 : 1.0) * (sc < 1 ? 1.0 / 1024 : 1.0)); if (sc < 1) sc = 1.0 / 1024; else sc = 1; }
  if (gen && !few && g.coin(0.8)) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i != j) S(i, j) += K(0.3 * sc / std::sqrt(double(n))) * realVal<K>(g); }
  auto pe = spectrum(g, n, s == Loop ? 1.3 : 3, false); for (auto& e : pe) e *= wsc / sc;
  identityPrec = identityPrec && s != Loop;
  DM<K> P = identityPrec ? K(wsc / sc) * DM<K>::id(n) : fromSpectrum<K>(g, pe);
  if (gen && !identityPrec && g.coin(0.5)) for (auto& e : P.a) e += K(0.05 * wsc / sc / n) * realVal<K>(g);
  if (s == Loop) { // contraction: W = theta * approximate inverse
    DM<K> I, E(n, n); inverse(S, I); for (auto& e : E.a) e = K(0.25 / n) * realVal<K>(g); for (size_t i = 0; i < n; ++i) E(i, i) += K(1); P = K(g.real(0.4, 1.0)) * E.mul(I); }
  p.S = S; p.P = P; p.A = S; p.W = P;
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { p.A(i, j) = S(i, j) / K(p.D[i]); if (s == Loop) p.W(i, j) = P(i, j) * K(p.D[j]); else p.W(i, j) = P(i, j); }
  // W must be self-adjoint in <.,.>_D and map residuals to updates: W = P' D with P' = P Hermitian
  if (s != Loop) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) p.W(i, j) = P(i, j) * K(p.D[j]);
  p.x.resize(n); for (auto& e : p.x) e = realVal<K>(g); p.b = p.A.mul(p.x);
  p.x0.assign(n, K(0)); if (g.coin(0.6)) for (auto& e : p.x0) e = K(g.pick({1.0, 1.0, 30.0})) * realVal<K>(g);
  p.text = str(sname(s), " n=", n, weighted ? " weighted" : "", indef ? " indef" : "", " sc=", sc, " wsc=", wsc, identityPrec ? " idprec" : "", few ? " few" : "");
  return p;
}
} // namespace sp
#endif
