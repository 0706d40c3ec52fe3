// C18: objects created from a configuration behave as the ones constructed directly with the documented parameters and defaults.
#include "ref.hh"
#include "amgprob.hh"
#include <dune/istl/operators.hh>
#include <dune/istl/cholmod.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/preconditioners.hh>
#ifdef WITH_AMG
#include <dune/istl/paamg/amg.hh>
#endif
#include <dune/istl/solvers.hh>
#include <dune/istl/solverfactory.hh>
using Dune::ParameterTree;
struct Quiet { std::streambuf *o, *e; struct Null : std::streambuf { int overflow(int c) override { return c; } } nb; Quiet() { o = std::cout.rdbuf(&nb); e = std::cerr.rdbuf(&nb); } ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
#if PT == 1
using B = FieldMatrix<double, 1, 1>; using X = BlockVector<FieldVector<double, 1>>;
#elif PT == 2
using B = FieldMatrix<double, 2, 2>; using X = BlockVector<FieldVector<double, 2>>;
#elif PT == 3
using B = FieldMatrix<std::complex<double>, 1, 1>; using X = BlockVector<FieldVector<std::complex<double>, 1>>;
#elif PT == 4
using B = double; using X = BlockVector<double>;
#elif PT == 5
using B = FieldMatrix<float, 2, 2>; using X = BlockVector<FieldVector<float, 2>>;
#endif
using K = X::field_type; using R = Dune::FieldTraits<K>::real_type; using Mat = BCRSMatrix<B>; constexpr int bs = Blk<B>::n;
using Op = Dune::MatrixAdapter<Mat, X, X>; using AOp = Dune::AssembledLinearOperator<Mat, X, X>; using Prec = Dune::Preconditioner<X, X>; using Solver = Dune::InverseOperator<X, X>; using SP = Dune::ScalarProduct<X>;
// an operator without a matrix
struct FreeOp : Dune::LinearOperator<X, X> { using domain_type = X; using range_type = X; using field_type = K; std::shared_ptr<const Mat> A; explicit FreeOp(std::shared_ptr<const Mat> a) : A(a) {}
  void apply(const X& x, X& y) const override { A->mv(x, y); } void applyscaleadd(K a, const X& x, X& y) const override { A->usmv(a, x, y); } Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; } };
static int initAll() { Dune::initSolverFactories<Op>(); Dune::initSolverFactories<FreeOp>(); 
#ifndef WITH_AMG
  Dune::initSolverFactories<AOp>();
#endif
  return 0; }
static const int initDone = (initAll(), initAll());

// ---- what an object did --------------------------------------------------------------------------
struct Seen { std::string error; std::vector<K> x, b; bool conv = false; int it = 0; double red = 0, rate = 0, cond = 0;
  static bool same(double a, double b) { return a == b || (a != a && b != b); }
  static bool same(const std::vector<K>& a, const std::vector<K>& b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(K)) == 0 || (!finite(a) && !finite(b))); }
  bool operator==(const Seen& o) const { return error == o.error && same(x, o.x) && same(b, o.b) && conv == o.conv && it == o.it && same(red, o.red) && same(rate, o.rate) && same(cond, o.cond); }
  std::string text() const { return str(error.empty() ? "" : "error " + error + " ", conv ? "conv" : "not-conv", " it=", it, " red=", red, " rate=", rate, " cond=", cond, " x=", show(x)); } };
template<class F> static Seen watch(F&& f) { Seen s; Quiet q; try { f(s); } catch (const Dune::Exception& e) { s.error = typeid(e).name(); } catch (const std::exception& e) { s.error = typeid(e).name(); } return s; }
template<class S> static Seen runSolver(S&& make, const std::vector<K>& x0, const std::vector<K>& b0, double oneOff, int calls) {
  return watch([&](Seen& s) { auto sv = make(); for (int k = 0; k < calls; ++k) { X x(x0.size() / bs), b(b0.size() / bs); assign(x, x0); assign(b, b0); Dune::InverseOperatorResult r; if (oneOff > 0 && k == calls - 1) sv->apply(x, b, oneOff, r); else sv->apply(x, b, r); s.x = flatten<K>(x); s.b = flatten<K>(b); s.conv = r.converged; s.it = r.iterations; s.red = r.reduction; s.rate = r.conv_rate; s.cond = r.condition_estimate; } }); }
template<class S> static Seen runPrec(S&& make, const std::vector<K>& x0, const std::vector<K>& d0, int calls) {
  return watch([&](Seen& s) { std::shared_ptr<Prec> p = make(); X x(x0.size() / bs), d(d0.size() / bs), v(d0.size() / bs); assign(x, x0); assign(d, d0); p->pre(x, d); for (int k = 0; k < calls; ++k) { v = K(0); p->apply(v, d); } p->post(x); s.x = flatten<K>(v); auto xe = flatten<K>(x); s.x.insert(s.x.end(), xe.begin(), xe.end()); s.b = flatten<K>(d); s.it = int(p->category()); }); }

template<class T> static void setEntry(T& t, int i, int j, K v) { if constexpr (!Dune::IsNumber<T>::value) t[i][j] = v; }
// ---- systems -------------------------------------------------------------------------------------
struct Sys { std::shared_ptr<Mat> A; std::shared_ptr<Op> op; size_t n; std::vector<K> x0, b0; std::string text; DM<K> D; };
static Sys makeSystem(vh::Case& c, bool symOnly, bool forAmg, bool regular = false) {
  auto& g = c.rng; Sys s; s.A = std::make_shared<Mat>(); Sp<B> m;
#if PT != 3 && PT != 5
  if (forAmg || (!regular && g.coin(0.3))) { std::string kind; m = problem<B>(g, 60, false, kind, symOnly); m.rebuildDense(); } else
#endif
  { size_t N = g.range(1, 24); std::string kind; Pattern p = symPattern(g, N, &kind); bool sym = symOnly || g.coin(); m = Sp<B>::make(g, N, N, p, [](vh::Rng& r) { return realVal<K>(r); }); m.kind = kind; auto& D = m.D;
    if (sym) for (size_t i = 0; i < D.r; ++i) for (size_t j = 0; j < i; ++j) D(i, j) = conj_(D(j, i));
    for (size_t i = 0; i < D.r; ++i) { double t = 0; for (size_t j = 0; j < D.c; ++j) if (j != i) t += std::max(dabs(D(i, j)), dabs(D(j, i))); D(i, i) = K(R(t * (regular ? 1.01 : g.real(0.8, 1.2)) + g.real(0.3, 1))); }
    for (auto& e : m.v) for (int i = 0; i < bs; ++i) for (int j = 0; j < bs; ++j) { if constexpr (Dune::IsNumber<B>::value) e.second = D(e.first.first, e.first.second); else setEntry(e.second, i, j, D(e.first.first * bs + i, e.first.second * bs + j)); } m.kind += sym ? "-sym" : ""; }
  build(*s.A, m, g); s.D = m.D; s.n = m.N * bs; s.op = std::make_shared<Op>(std::shared_ptr<const Mat>(s.A)); s.x0 = g.coin(0.5) ? std::vector<K>(s.n, K(0)) : randVec<K>(g, s.n, false); s.b0 = randVec<K>(g, s.n, false); s.text = str(m.kind, " N=", m.N); return s;
}

// ---- preconditioners: configuration and direct construction ----------------------------------------
static std::string low(std::string s, vh::Rng& g) { if (g.coin(0.2)) for (auto& ch : s) if (g.coin()) ch = std::toupper(ch); return s; }
template<class T> static bool put(vh::Rng& g, ParameterTree& t, const char* key, T& var, const T& val, double prob = 0.6) { if (!g.coin(prob)) return false; var = val; std::ostringstream o; o << std::boolalpha << val; t[key] = o.str(); return true; }
static std::string text(const ParameterTree& t, const std::string& pre = "") { std::string s; for (auto& k : t.getValueKeys()) s += pre + k + "=" + t[k] + " "; for (auto& k : t.getSubKeys()) s += text(t.sub(k), pre + k + "."); return s; }
using Maker = std::function<std::shared_ptr<Prec>(const Sys&)>;
struct PS { std::string type; Maker direct; std::vector<Maker> configured; ParameterTree t; };
static const std::vector<std::string> precNames{"ssor", "sor", "gs", "jac", "dilu", "ilu", "richardson", "ildl"};
#ifdef WITH_AMG
template<class S> static std::shared_ptr<Prec> amgDirect(const Sys& s, int norm, bool sym, const std::function<void(Dune::Amg::Parameters&, std::function<void(int, int, bool)>)>& set, const typename Dune::Amg::SmootherTraits<S>::Arguments& args) {
  std::shared_ptr<Prec> r; using namespace Dune::Amg;
  auto go = [&](auto nm) { using N = decltype(nm); auto with = [&](auto cr) { set(cr, [&](int dim, int dist, bool iso) { if (iso) cr.setDefaultValuesIsotropic(dim, dist); else cr.setDefaultValuesAnisotropic(dim, dist); }); r = std::make_shared<AMG<Op, X, S>>(*s.op, cr, args); };
    if (sym) with(CoarsenCriterion<SymmetricCriterion<Mat, N>>()); else with(CoarsenCriterion<UnSymmetricCriterion<Mat, N>>()); };
  switch (norm) { case 0: go(Diagonal<0>()); break; case 1: if constexpr (bs > 1) go(Diagonal<1>()); break; case 5: go(RowSum()); break; case 6: go(FrobeniusNorm()); break; default: go(AlwaysOneNorm()); }
  return r; }
static PS makeAmg(vh::Case& c) {
  auto& g = c.rng; PS p; p.type = "amg"; auto& t = p.t; t["type"] = "amg"; using namespace Dune::Amg;
  std::string sm = "ssor"; if (g.coin(0.8)) { sm = g.pick({"ssor", "sor", "jac", "gs", "ilu"}); t["smoother"] = sm; }
  int its = 1; double w = 1; bool hasIt = put(g, t, "smootherIterations", its, int(g.range(1, 3))), hasW = put(g, t, "smootherRelaxation", w, g.pick({0.5, 0.75, 1.25})); (void)hasIt; (void)hasW;
  int norm = 0; if (g.coin(0.7)) { norm = g.pick({0, 0, 5, 6, 7}); t["strengthMeasure"] = low(norm == 0 ? "diagonal" : norm == 5 ? "rowSum" : norm == 6 ? "frobenius" : "one", g); }
  if (norm == 0 && bs > 1 && g.coin()) { norm = g.range(0, 1); t["diagonalRowIndex"] = str(norm); }
  bool sym = true; put(g, t, "criterionSymmetric", sym, g.coin());
  struct V { int has = 0; int maxLevel, coarsenTarget, accu, dim, iso, maxDist, minA, maxA, con, gamma, pre, post; double rate, damp, alpha, beta; bool add; }; V v; auto opt = [&](int bit, const char* key, auto& var, auto val) { std::decay_t<decltype(var)> x = val; if (put(g, t, key, var, x, 0.4)) v.has |= 1 << bit; };
  opt(0, "maxLevel", v.maxLevel, int(g.range(1, 5))); opt(1, "coarsenTarget", v.coarsenTarget, int(g.pick({1, 2, 5, 10, 30}))); opt(2, "minCoarseningRate", v.rate, g.pick({1.0, 1.125, 1.5, 2.0, 2.75, 4.5}));
  if (((v.has >> 2) & 1) && v.rate < 1.2 && !(v.has & 1)) { v.has |= 1; v.maxLevel = 5; t["maxLevel"] = "5"; } // deep hierarchies with a W-cycle take too long
  if (g.coin(0.4)) { v.has |= 8; v.accu = g.range(0, 2); t["accumulationMode"] = low(v.accu == 0 ? "none" : v.accu == 1 ? "atOnce" : "successive", g); }
  opt(4, "prolongationDampingFactor", v.damp, g.pick({0.5, 1.0, 1.75})); opt(5, "alpha", v.alpha, g.pick({0.0, 0.125, 0.625, 0.9375})); opt(6, "beta", v.beta, g.pick({0.0, 0.0625, 0.375})); opt(7, "gamma", v.gamma, int(g.range(1, 3))); opt(8, "additive", v.add, g.coin(0.3)); opt(9, "preSteps", v.pre, int(g.range(0, 3))); opt(10, "postSteps", v.post, int(g.range(0, 3)));
  bool mode = g.coin(0.4); if (mode) { v.has |= 1 << 11; v.iso = g.coin(); v.dim = g.range(1, 3); t["defaultAggregationSizeMode"] = low(v.iso ? "isotropic" : "anisotropic", g); t["defaultAggregationDimension"] = str(v.dim); }
  opt(12, "maxAggregateDistance", v.maxDist, int(g.range(1, 4))); opt(13, "minAggregateSize", v.minA, int(g.range(1, 5))); opt(14, "maxAggregateSize", v.maxA, int(g.range(5, 12)));
  { Parameters q; if ((v.has >> 11) & 1) { int dd = (v.has >> 12) & 1 ? v.maxDist : 2; if (v.iso) q.setDefaultValuesIsotropic(v.dim, dd); else q.setDefaultValuesAnisotropic(v.dim, dd); } if ((v.has >> 13) & 1) q.setMinAggregateSize(v.minA); if ((v.has >> 14) & 1) q.setMaxAggregateSize(v.maxA);
    if (q.minAggregateSize() > q.maxAggregateSize()) { v.has |= 1 << 14; v.maxA = q.minAggregateSize() + g.range(0, 4); t["maxAggregateSize"] = str(v.maxA); } } // a minimum above the maximum is not a valid choice
  if (g.coin(0.3)) t["verbosity"] = str(g.range(0, 3));
  auto set = [v](Dune::Amg::Parameters& cr, std::function<void(int, int, bool)> dflt) { auto h = [&](int b) { return (v.has >> b) & 1; };
    if (h(0)) cr.setMaxLevel(v.maxLevel); if (h(1)) cr.setCoarsenTarget(v.coarsenTarget); if (h(2)) cr.setMinCoarsenRate(v.rate); if (h(3)) cr.setAccumulate(v.accu == 0 ? noAccu : v.accu == 1 ? atOnceAccu : successiveAccu); if (h(4)) cr.setProlongationDampingFactor(v.damp);
    if (h(11)) dflt(v.dim, h(12) ? v.maxDist : 2, v.iso); if (h(12)) cr.setMaxDistance(v.maxDist); if (h(13)) cr.setMinAggregateSize(v.minA); if (h(14)) cr.setMaxAggregateSize(v.maxA); if (h(5)) cr.setAlpha(v.alpha); if (h(6)) cr.setBeta(v.beta); if (h(7)) cr.setGamma(v.gamma); if (h(8)) cr.setAdditive(v.add); if (h(9)) cr.setNoPreSmoothSteps(v.pre); if (h(10)) cr.setNoPostSmoothSteps(v.post); cr.setDebugLevel(0); };
  p.direct = [=](const Sys& s) -> std::shared_ptr<Prec> { auto with = [&](auto tag) { using S = typename decltype(tag)::type; typename SmootherTraits<S>::Arguments a; a.iterations = its; a.relaxationFactor = w; return amgDirect<S>(s, norm, sym, set, a); };
    if (sm == "ssor") return with(Dune::MetaType<Dune::SeqSSOR<Mat, X, X>>{}); if (sm == "sor") return with(Dune::MetaType<Dune::SeqSOR<Mat, X, X>>{}); if (sm == "jac") return with(Dune::MetaType<Dune::SeqJac<Mat, X, X>>{}); if (sm == "gs") return with(Dune::MetaType<Dune::SeqGS<Mat, X, X>>{}); return with(Dune::MetaType<Dune::SeqILU<Mat, X, X>>{}); };
  p.configured.push_back([t, sm](const Sys& s) -> std::shared_ptr<Prec> { std::shared_ptr<const Op> o = s.op; if (sm == "ssor") return std::make_shared<AMG<Op, X, Dune::SeqSSOR<Mat, X, X>>>(o, t); if (sm == "sor") return std::make_shared<AMG<Op, X, Dune::SeqSOR<Mat, X, X>>>(o, t); if (sm == "jac") return std::make_shared<AMG<Op, X, Dune::SeqJac<Mat, X, X>>>(o, t); if (sm == "gs") return std::make_shared<AMG<Op, X, Dune::SeqGS<Mat, X, X>>>(o, t); return std::make_shared<AMG<Op, X, Dune::SeqILU<Mat, X, X>>>(o, t); });
  return p;
}
#endif
static PS makePrec(vh::Case& c, std::string type = "") {
  auto& g = c.rng; PS p; if (type.empty()) type = precNames[g.range(0, precNames.size() - 1)];
  p.type = type; auto& t = p.t; t["type"] = type; int it = 1, n = 0; double w = 1; bool resort = false; bool wt = put(g, t, "relaxation", w, g.pick({0.25, 0.5, 0.75, 1.0, 1.25, 1.5})); (void)wt;
  if (type == "ssor" || type == "sor" || type == "gs" || type == "jac") put(g, t, "iterations", it, int(g.range(0, 4))); if (type == "ilu") { put(g, t, "n", n, int(g.range(0, 3))); put(g, t, "resort", resort, g.coin()); }
  R rw = R(w); auto both = [&](auto tag) { using P = typename decltype(tag)::type; p.configured.push_back([t](const Sys& s) { return std::make_shared<P>(*s.A, t); }); p.configured.push_back([t](const Sys& s) { return std::make_shared<P>(std::shared_ptr<const AOp>(s.op), t); }); };
  if (type == "ssor") { p.direct = [=](const Sys& s) { return std::make_shared<Dune::SeqSSOR<Mat, X, X>>(*s.A, it, rw); }; both(Dune::MetaType<Dune::SeqSSOR<Mat, X, X>>{}); }
  else if (type == "sor") { p.direct = [=](const Sys& s) { return std::make_shared<Dune::SeqSOR<Mat, X, X>>(*s.A, it, rw); }; both(Dune::MetaType<Dune::SeqSOR<Mat, X, X>>{}); }
  else if (type == "gs") { p.direct = [=](const Sys& s) { return std::make_shared<Dune::SeqGS<Mat, X, X>>(*s.A, it, rw); }; both(Dune::MetaType<Dune::SeqGS<Mat, X, X>>{}); }
  else if (type == "jac") { p.direct = [=](const Sys& s) { return std::make_shared<Dune::SeqJac<Mat, X, X>>(*s.A, it, rw); }; both(Dune::MetaType<Dune::SeqJac<Mat, X, X>>{}); }
  else if (type == "dilu") { p.direct = [=](const Sys& s) { return std::make_shared<Dune::SeqDILU<Mat, X, X>>(*s.A, rw); }; both(Dune::MetaType<Dune::SeqDILU<Mat, X, X>>{}); }
  else if (type == "ilu") { p.direct = [=](const Sys& s) { return std::make_shared<Dune::SeqILU<Mat, X, X>>(*s.A, n, rw, resort); }; both(Dune::MetaType<Dune::SeqILU<Mat, X, X>>{}); }
  else if (type == "ildl") { p.direct = [=](const Sys& s) { return std::make_shared<Dune::SeqILDL<Mat, X, X>>(*s.A, rw); }; both(Dune::MetaType<Dune::SeqILDL<Mat, X, X>>{}); }
  else { p.direct = [=](const Sys&) { return std::make_shared<Dune::Richardson<X, X>>(rw); }; p.configured.push_back([t](const Sys&) { return std::make_shared<Dune::Richardson<X, X>>(t); }); }
  return p;
}
static PS anyPrec(vh::Case& c, bool amg) {
#ifdef WITH_AMG
  if (amg) return makeAmg(c);
#endif
  (void)amg; return makePrec(c);
}
// ---- solvers ---------------------------------------------------------------------------------------
static const std::vector<std::string> solverNames{"loopsolver", "gradientsolver", "cgsolver", "bicgstabsolver", "minressolver", "restartedgmressolver", "restartedflexiblegmressolver", "generalizedpcgsolver", "restartedfcgsolver", "completefcgsolver"};
struct SS { std::string type; R red; int maxit, restart = 0, mmax = 10, verb; ParameterTree t; };
static SS makeSolver(vh::Case& c, std::string type = "") {
  auto& g = c.rng; SS s; if (type.empty()) type = solverNames[g.range(0, solverNames.size() - 1)]; s.type = type; auto& t = s.t; t["type"] = type;
  double red = g.pick({0.5, 0.0625, 1.0 / 1024, 1.0 / 1048576, 1.0 / (1 << 30)}); s.red = R(red); t["reduction"] = str(red); s.maxit = g.range(0, 20); t["maxit"] = str(s.maxit); s.verb = g.coin(0.8) ? 0 : g.range(1, 2); t["verbose"] = str(s.verb);
  if (type == "restartedgmressolver" || type == "restartedflexiblegmressolver" || type == "generalizedpcgsolver") { s.restart = g.range(1, 6); t["restart"] = str(s.restart); }
  if (type == "restartedfcgsolver" || type == "completefcgsolver") put(g, t, "mmax", s.mmax, int(g.range(0, 6)), 0.7);
  return s;
}
using LOp = Dune::LinearOperator<X, X>;
static std::shared_ptr<Solver> directSolver(const SS& s, std::shared_ptr<const LOp> op, std::shared_ptr<Prec> p, std::shared_ptr<const SP> sp) {
  auto& n = s.type; using namespace Dune;
  if (n == "loopsolver") return std::make_shared<LoopSolver<X>>(op, sp, p, s.red, s.maxit, s.verb);
  if (n == "gradientsolver") return std::make_shared<GradientSolver<X>>(op, sp, p, s.red, s.maxit, s.verb);
  if (n == "cgsolver") return std::make_shared<CGSolver<X>>(op, sp, p, s.red, s.maxit, s.verb);
  if (n == "bicgstabsolver") return std::make_shared<BiCGSTABSolver<X>>(op, sp, p, s.red, s.maxit, s.verb);
  if (n == "minressolver") return std::make_shared<MINRESSolver<X>>(op, sp, p, s.red, s.maxit, s.verb);
  if (n == "restartedgmressolver") return std::make_shared<RestartedGMResSolver<X>>(op, sp, p, s.red, s.restart, s.maxit, s.verb);
  if (n == "restartedflexiblegmressolver") return std::make_shared<RestartedFlexibleGMResSolver<X>>(op, sp, p, s.red, s.restart, s.maxit, s.verb);
  if (n == "generalizedpcgsolver") return std::make_shared<GeneralizedPCGSolver<X>>(op, sp, p, s.red, s.maxit, s.verb, s.restart);
  if (n == "restartedfcgsolver") return std::make_shared<RestartedFCGSolver<X>>(op, sp, p, s.red, s.maxit, s.verb, s.mmax);
  return std::make_shared<CompleteFCGSolver<X>>(op, sp, p, s.red, s.maxit, s.verb, s.mmax);
}
static std::shared_ptr<Solver> configuredSolver(const SS& s, std::shared_ptr<const LOp> op, std::shared_ptr<Prec> p, std::shared_ptr<const SP> sp) {
  auto& n = s.type; using namespace Dune; auto mk = [&](auto tag) -> std::shared_ptr<Solver> { using S = typename decltype(tag)::type; if (sp) return std::make_shared<S>(op, sp, p, s.t); return std::make_shared<S>(op, p, s.t); };
  if (n == "loopsolver") return mk(MetaType<LoopSolver<X>>{}); if (n == "gradientsolver") return mk(MetaType<GradientSolver<X>>{}); if (n == "cgsolver") return mk(MetaType<CGSolver<X>>{}); if (n == "bicgstabsolver") return mk(MetaType<BiCGSTABSolver<X>>{}); if (n == "minressolver") return mk(MetaType<MINRESSolver<X>>{});
  if (n == "restartedgmressolver") return mk(MetaType<RestartedGMResSolver<X>>{}); if (n == "restartedflexiblegmressolver") return mk(MetaType<RestartedFlexibleGMResSolver<X>>{}); if (n == "generalizedpcgsolver") return mk(MetaType<GeneralizedPCGSolver<X>>{}); if (n == "restartedfcgsolver") return mk(MetaType<RestartedFCGSolver<X>>{}); return mk(MetaType<CompleteFCGSolver<X>>{});
}
static bool differ(vh::Case& c, const Seen& a, const Seen& b, const std::string& key) { return !c.check(a == b, key, str("configured: ", b.text(), " direct: ", a.text())); }

#ifndef WITH_AMG
#define GROUP_PREC VGROUP("preconditioners", 2500, 80000)
#define AMGFLAG false
#else
#define GROUP_PREC VGROUP("amg-preconditioners", 900, 30000)
#define AMGFLAG true
#endif
GROUP_PREC {
  auto& g = c.rng; auto p = anyPrec(c, AMGFLAG); auto s = makeSystem(c, p.type == "ildl", AMGFLAG); int calls = g.range(1, 2); c.note(str(s.text, " ", text(p.t)));
  auto ref = runPrec([&] { return p.direct(s); }, s.x0, s.b0, calls); std::string key = p.type;
  auto fac = runPrec([&] { return Dune::getPreconditionerFromFactory(s.op, p.t); }, s.x0, s.b0, calls); differ(c, ref, fac, key + "/factory");
#ifndef WITH_AMG
  if (g.coin(0.3)) { std::shared_ptr<AOp> a = s.op; differ(c, ref, runPrec([&] { return Dune::getPreconditionerFromFactory(a, p.t); }, s.x0, s.b0, calls), key + "/factory-of-abstract-operator"); }
#endif
  for (size_t k = 0; k < p.configured.size(); ++k) differ(c, ref, runPrec([&] { return p.configured[k](s); }, s.x0, s.b0, calls), str(key, "/constructor", k));
  c.check(ref.error.empty() || p.type == "ildl" || p.type == "ilu" || p.type == "dilu" || AMGFLAG, key + "/error", ref.error); c.sig(str(text(p.t), s.n, ref.error));
}
VGROUP("iterative-solvers", AMGFLAG ? 300 : 3000, 60000) {
  auto& g = c.rng; auto p = anyPrec(c, AMGFLAG); auto sv = makeSolver(c); bool symNeeded = p.type == "ildl" || ((sv.type == "cgsolver" || sv.type == "minressolver") && g.coin(0.8)); auto s = makeSystem(c, symNeeded, AMGFLAG);
  ParameterTree t = sv.t; t.sub("preconditioner") = p.t; int calls = g.range(1, 2); double off = g.coin(0.3) ? g.pick({0.125, 1.0 / 4096}) : 0; c.note(str(s.text, " calls=", calls, off > 0 ? " one-off " : " ", text(t)));
  auto sp = std::make_shared<Dune::SeqScalarProduct<X>>();
  auto ref = runSolver([&] { return directSolver(sv, s.op, p.direct(s), sp); }, s.x0, s.b0, off, calls);
  auto fac = runSolver([&] { return Dune::getSolverFromFactory(s.op, t); }, s.x0, s.b0, off, calls); differ(c, ref, fac, sv.type + "/factory");
  int how = g.range(0, 4); Seen o;
  if (how == 0) o = runSolver([&] { return configuredSolver(sv, s.op, p.direct(s), sp); }, s.x0, s.b0, off, calls);
  else if (how == 1) o = runSolver([&] { return configuredSolver(sv, s.op, p.direct(s), nullptr); }, s.x0, s.b0, off, calls);
  else if (how == 2) { ParameterTree u = sv.t; if (g.coin()) u.sub("preconditioner") = makePrec(c).t; o = runSolver([&] { return Dune::getSolverFromFactory(s.op, u, p.direct(s)); }, s.x0, s.b0, off, calls); }
#ifndef WITH_AMG
  else if (how == 3) { std::shared_ptr<AOp> a = s.op; o = runSolver([&] { return Dune::getSolverFromFactory(a, t); }, s.x0, s.b0, off, calls); }
  else { auto f = std::make_shared<FreeOp>(s.A); o = runSolver([&] { return Dune::getSolverFromFactory(f, sv.t, p.direct(s)); }, s.x0, s.b0, off, calls); }
#else
  else { o = fac; }
#endif
  const char* hn[] = {"/constructor-with-scalar-product", "/constructor", "/runtime-preconditioner", "/abstract-operator", "/matrix-free"}; differ(c, ref, o, sv.type + hn[how]);
  c.sig(str(sv.type, "/", p.type, "/", sv.maxit, "/", sv.restart, "/", sv.mmax, "/", ref.it, "/", ref.conv, ref.error, how, text(p.t)));
}
#ifndef WITH_AMG
// ---- direct solvers ----------------------------------------------------------------------------------
template<class S> static S* as(const std::shared_ptr<Solver>& s) { return dynamic_cast<S*>(s.get()); }
template<class O> static void directCase(vh::Case& c, std::shared_ptr<O> op, const Sys& s, const std::string& name, const ParameterTree& t, bool free) {
  auto x0 = s.x0; auto b0 = s.b0; bool supported = !free;
#if PT == 3
  if (name != "umfpack" && name != "superlu") supported = false;
#elif PT == 5
  if (name != "cholmod") supported = false;
#elif PT == 4
  if (name == "ldl" || name == "spqr") supported = false;
#endif
  std::shared_ptr<Solver> sv; std::string err; { Quiet q; try { sv = Dune::getSolverFromFactory(op, t); } catch (const Dune::UnsupportedType&) { err = "unsupported"; } catch (const Dune::Exception& e) { err = e.what(); } }
  if (!supported) { c.check(!sv && err == "unsupported", name + "/unsupported", str("created=", bool(sv), " error=", err)); c.sig(str(name, "/unsupported/", free, s.n)); return; }
  if (!c.check(bool(sv), name + "/creation", err)) return;
  X x(x0.size() / bs), b(x); assign(x, x0); assign(b, b0); Dune::InverseOperatorResult r; { Quiet q; sv->apply(x, b, r); } auto xs = flatten<K>(x); auto Ax = s.D.mul(xs); double e = maxdiff(Ax, b0), an = 0; for (auto& v : s.D.a) an = std::max(an, dabs(v));
  c.check(e <= 1e3 * s.n * std::numeric_limits<R>::epsilon() * (an * maxabs(xs) + maxabs(b0)) && r.converged, name + "/solution", str("residual ", e));
  bool type = name == "cholmod" ? as<Dune::Cholmod<X>>(sv) != nullptr : true;
#if PT <= 4
  if constexpr (std::is_same_v<Dune::FieldTraits<K>::real_type, double>) { if (name == "umfpack") type = as<Dune::UMFPack<Mat>>(sv) != nullptr; 
    if (name == "superlu") type = as<Dune::SuperLU<Mat>>(sv) != nullptr; }
#endif
#if PT <= 2
  if (name == "ldl") type = as<Dune::LDL<Mat>>(sv) != nullptr; if (name == "spqr") type = as<Dune::SPQR<Mat>>(sv) != nullptr;
  ParameterTree u; bool rv = true; if (c.rng.coin()) u["verbose"] = "0"; put(c.rng, u, "reuseVector", rv, c.rng.coin()); std::shared_ptr<Solver> k; { Quiet q; if (name == "ldl") k = std::make_shared<Dune::LDL<Mat>>(*s.A, u); else if (name == "spqr") k = std::make_shared<Dune::SPQR<Mat>>(*s.A, u); else if (name == "umfpack") k = std::make_shared<Dune::UMFPack<Mat>>(*s.A, u); else if (name == "superlu") k = std::make_shared<Dune::SuperLU<Mat>>(*s.A, u); }
  if (k) { X y(x); assign(y, x0); assign(b, b0); k->apply(y, b, r); c.check(maxdiff(flatten<K>(y), xs) <= 1e-9 * (1 + maxabs(xs)), name + "/constructor", "solution differs"); }
#endif
  c.check(type, name + "/type", "another solver was created"); c.sig(str(name, "/", s.n, "/", free));
}
VGROUP("direct-solvers", 800, 15000) {
  auto& g = c.rng; std::string name = g.pick({"spqr", "ldl", "cholmod", "umfpack", "superlu"}); auto s = makeSystem(c, name == "ldl" || name == "cholmod", false, true); ParameterTree t; t["type"] = name; if (g.coin()) t["verbose"] = g.pick({"0", "0", "1"}); if (g.coin(0.3)) t["reduction"] = "1e-5"; if (g.coin(0.3)) t.sub("preconditioner") = makePrec(c).t; c.note(str(s.text, " ", text(t)));
  int how = g.range(0, 4); if (how == 0) directCase(c, std::shared_ptr<AOp>(s.op), s, name, t, false); else if (how == 1) directCase(c, std::make_shared<FreeOp>(s.A), s, name, t, true); else directCase(c, s.op, s, name, t, false);
}
// ---- histories: creations through one factory do not influence each other ----------------------------
VGROUP("histories", 400, 10000) {
  auto& g = c.rng; struct Item { Sys s; SS sv; PS p; std::shared_ptr<Solver> got; Seen ref; double off; bool runtime; }; std::vector<Item> items; int n = g.range(2, 6); std::string tr;
  auto sp = std::make_shared<Dune::SeqScalarProduct<X>>();
  for (int i = 0; i < n; ++i) { Item it; it.p = makePrec(c, g.pick({"ssor", "sor", "jac", "gs", "richardson"})); it.sv = makeSolver(c); it.s = makeSystem(c, g.coin(), false); it.off = g.coin(0.2) ? 0.125 : 0; it.runtime = g.coin(0.4); tr += str(it.sv.type, "+", it.p.type, it.runtime ? "(runtime)" : "", " ");
    ParameterTree t = it.sv.t; if (!it.runtime || g.coin()) t.sub("preconditioner") = it.runtime ? makePrec(c).t : it.p.t; std::shared_ptr<Prec> pr; if (it.runtime) pr = it.p.direct(it.s); ParameterTree before = t; it.got = Dune::getSolverFromFactory(it.s.op, t, pr); c.check(text(before) == text(t), "configuration-modified", text(t)); if (g.coin(0.3)) t = ParameterTree(); if (g.coin(0.2)) Dune::initSolverFactories<Op>(); items.push_back(it); }
  c.note(tr);
  for (auto& it : items) it.ref = runSolver([&] { return directSolver(it.sv, it.s.op, it.p.direct(it.s), sp); }, it.s.x0, it.s.b0, it.off, 1);
  for (int k = 0; k < 2; ++k) { g.shuffle(items); for (auto& it : items) differ(c, it.ref, runSolver([&] { return it.got; }, it.s.x0, it.s.b0, it.off, 1), it.sv.type + "/later"); }
  c.sig(tr);
}
#endif
// ---- malformed configurations are reported ------------------------------------------------------------
VGROUP("errors", AMGFLAG ? 300 : 1200, 15000) {
  auto& g = c.rng; auto s = makeSystem(c, false, AMGFLAG); auto sv = makeSolver(c); auto p = AMGFLAG && g.coin(0.7) ? anyPrec(c, true) : makePrec(c, AMGFLAG ? "" : g.pick({"ssor", "sor", "jac", "ilu", "gs", "dilu"})); std::string what; bool free = false, throws = true;
  ParameterTree t = sv.t; t.sub("preconditioner") = p.t; auto& pt = t.sub("preconditioner"); auto bad = [&](std::vector<std::string> l) { return l[g.range(0, l.size() - 1)]; };
  auto erase = [](const ParameterTree& o, const std::string& key) { ParameterTree n; for (auto& k : o.getValueKeys()) if (k != key) n[k] = o[k]; for (auto& k : o.getSubKeys()) n.sub(k) = o.sub(k); return n; };
  switch (g.range(0, p.type == "amg" ? 11 : 7)) {
    case 0: what = "unknown-solver"; t["type"] = bad({"", "cg", "CGSolver", "cgsolver2", "nosolver", "preconditioner"}); break;
    case 1: what = "unknown-preconditioner"; pt["type"] = bad({"", "SSOR", "ilu0", "cgsolver", "none", "block"}); break;
    case 2: { auto k = bad({"type", "reduction", "maxit"}); if (sv.restart) k = bad({"type", "reduction", "maxit", "restart"}); what = "missing-" + k; t = erase(t, k); break; }
    case 3: what = "missing-preconditioner"; if (g.coin()) { ParameterTree n = sv.t; t = n; } else t.sub("preconditioner") = erase(pt, "type"); break;
    case 4: { auto k = bad({"reduction", "maxit"}); what = "malformed-" + k; t[k] = bad({"", "abc", "1..5", "1e", "5 6", "1e-3x"}); if (k == "maxit" && g.coin(0.3)) t[k] = "2.5"; break; }
    case 5: what = "malformed-relaxation"; if (p.type == "amg") pt["smootherRelaxation"] = bad({"abc", "", "0.5.5"}); else pt["relaxation"] = bad({"", "abc", "0.5.5", "1 2"}); break;
    case 6: if (sv.restart) { what = "malformed-restart"; t["restart"] = bad({"", "x", "2.5", "1 1"}); } else if (sv.type == "restartedfcgsolver" || sv.type == "completefcgsolver") { what = "malformed-mmax"; t["mmax"] = bad({"x", "2.5", "1 1"}); } else if (p.type == "ilu") { what = "malformed-n"; pt["n"] = bad({"x", "1.5"}); } else { what = "none"; throws = false; } break;
    case 7: if (p.type != "richardson") { free = true; what = "matrix-free"; } else { what = "none"; throws = false; } break;
    case 8: what = "amg-smoother"; pt["smoother"] = bad({"none", "SSOR", "dilu", ""}); break;
    case 9: what = "amg-strength"; if (g.coin()) pt["strengthMeasure"] = bad({"none", "max", ""}); else { pt["strengthMeasure"] = "diagonal"; pt["diagonalRowIndex"] = Dune::IsNumber<B>::value ? str(g.pick({5, -1, 100})) : str(g.pick({long(bs), 4l, 5l, -1l, 100l})); } break;
    case 10: what = "amg-mode"; if (g.coin()) pt["accumulationMode"] = bad({"never", "", "at once"}); else { pt["defaultAggregationSizeMode"] = bad({"iso", "", "both"}); pt["defaultAggregationDimension"] = "2"; } break;
    default: { what = "amg-number"; pt[bad({"maxLevel", "coarsenTarget", "alpha", "beta", "gamma", "preSteps", "postSteps", "maxAggregateSize", "minAggregateSize", "prolongationDampingFactor", "minCoarseningRate", "smootherIterations"})] = bad({"x", "1 2", ""}); }
  }
#if PT == 3 && defined(WITH_AMG)
  if (p.type == "amg") throws = true;
#endif
  c.note(str(what, " ", text(t))); std::string err; bool made = false, dune = false; { Quiet q; try { if (free) made = bool(Dune::getSolverFromFactory(std::make_shared<FreeOp>(s.A), t)); else made = bool(Dune::getSolverFromFactory(s.op, t)); } catch (const Dune::Exception& e) { dune = true; err = e.what(); } catch (const std::exception& e) { err = e.what(); } }
  if (throws) c.check(!made && dune, what + "/not-reported", str("created=", made, " error=", err)); 
  c.sig(str(what, "/", sv.type, "/", p.type, "/", text(t)));
}
