// C12: multigrid cycles equal their recursive definition, converge, and carry no state from one use to the next.
#include "ref.hh"
#include "track.hh"
#include "amgref.hh"
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/paamg/amg.hh>
#include <dune/istl/paamg/fastamg.hh>
#include <dune/istl/paamg/kamg.hh>
#include <dune/istl/paamg/twolevelmethod.hh>
using vh::str; namespace Amg = Dune::Amg;
struct Quiet { std::streambuf *o, *e; struct Null : std::streambuf { int overflow(int c) override { return c; } } nb; Quiet() { o = std::cout.rdbuf(&nb); e = std::cerr.rdbuf(&nb); } ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };

template<class B> struct T { using Mat = BCRSMatrix<B>; static constexpr int n = Blk<B>::n; using X = BlockVector<std::conditional_t<std::is_arithmetic_v<B>, double, FieldVector<double, n>>>; using Op = Dune::MatrixAdapter<Mat, X, X>; using PI = Amg::SequentialInformation; using H = Amg::MatrixHierarchy<Op, PI, std::allocator<X>>; using Flags = Dune::NegateSet<typename PI::OwnerSet>;
  using SymC = Amg::CoarsenCriterion<Amg::SymmetricCriterion<Mat, Amg::FirstDiagonal>>; using UnsymC = Amg::CoarsenCriterion<Amg::UnSymmetricCriterion<Mat, Amg::FirstDiagonal>>; };
template<class X> static mg::V flatv(const X& x) { return flatten<double>(x); }
template<class H> static std::vector<std::vector<size_t>> aggregates(H& h) {
  std::vector<std::vector<size_t>> r; auto m = h.matrices().finest(); auto a = h.aggregatesMaps().begin(); for (size_t l = 0; l + 1 < h.levels(); ++l, ++m, ++a) { std::vector<size_t> v(m->getmat().N()); for (size_t i = 0; i < v.size(); ++i) v[i] = (**a)[i] == std::decay_t<decltype(**a)>::ISOLATED ? mg::NONE : (**a)[i]; r.push_back(v); } return r;
}
template<class S> struct SK; template<class M, class X> struct SK<Dune::SeqJac<M, X, X>> { static constexpr auto k = mg::Jac; static const char* name() { return "jac"; } }; template<class M, class X> struct SK<Dune::SeqSOR<M, X, X>> { static constexpr auto k = mg::SOR; static const char* name() { return "sor"; } };
template<class M, class X> struct SK<Dune::SeqSSOR<M, X, X>> { static constexpr auto k = mg::SSOR; static const char* name() { return "ssor"; } }; template<class M, class X> struct SK<Dune::SeqILU<M, X, X>> { static constexpr auto k = mg::ILU; static const char* name() { return "ilu"; } };

// random configuration shared by the library object and the model
template<class C> static C config(vh::Rng& g, mg::Cycle& m, std::string& txt, bool fast = false) {
  int target = g.pick({0, 1, 2, 4, 10, 30, 1000}), maxl = g.pick({1, 2, 3, 15, 15, 15}); double rate = g.pick({1.0, 1.2, 1.2, 2.0}); m.damp = g.pick({1.0, 1.6, 0.7, 1.25}); C cr{Amg::Parameters(maxl, target, rate, m.damp)}; double al, be; parameters(g, cr, txt, al, be);
  m.gamma = g.pick({1, 1, 2, 2, 3}); m.pre = fast ? 1 : g.range(0, 3); m.post = fast ? 1 : g.range(0, 3); m.additive = !fast && g.coin(0.15); cr.setGamma(m.gamma); cr.setNoPreSmoothSteps(m.pre); cr.setNoPostSmoothSteps(m.post); cr.setAdditive(m.additive); cr.setDebugLevel(g.coin(0.1) ? 1 : 0);
  txt = str(" target=", target, " maxlevel=", maxl, " rate=", rate, " damp=", m.damp, " gamma=", m.gamma, " pre=", m.pre, " post=", m.post, m.additive ? " additive" : "", txt); return cr;
}
template<class B> static void perturb(vh::Rng& g, Sp<B>& s) { double f = g.pick({2.0, 0.5, 8.0}); bool rnd = g.coin(); std::map<std::pair<size_t, size_t>, double> r; for (auto& e : s.v) { auto k = std::minmax(e.first.first, e.first.second); auto it = r.insert({k, rnd && k.first != k.second ? g.real(0.5, 1) : 1}); e.second *= f * it.first->second; } }
static bool close(const mg::V& a, const mg::V& b, double tol = 1e-8) { return a.size() == b.size() && finite(a) && maxdiff(a, b) <= tol * (maxabs(b) + 1e-300); }

// ---- the cycle against its definition, over histories --------------------------------------------------
template<class B, class S, class C> static void cycles(vh::Case& c, const char* cn) {
  auto& g = c.rng; using TT = T<B>; using Mat = typename TT::Mat; using X = typename TT::X; using Op = typename TT::Op; using A_ = Amg::AMG<Op, X, S>; Quiet q;
  std::string kind, txt; auto s = dominant<B>(g, g.coin(0.3) ? 12 : TT::n > 1 ? 35 : 60, kind); auto A = std::make_shared<Mat>(); build(*A, s, g); Op op(*A); mg::Cycle m; C cr = config<C>(g, m, txt);
  m.s.kind = SK<S>::k; m.s.it = g.pick({1, 1, 2, 3}); m.s.w = m.s.kind == mg::Jac ? g.real(0.4, 1) : g.real(0.5, 1.5); if (g.coin(0.4)) m.s.w = 1; typename A_::SmootherArgs sa; sa.iterations = m.s.it; sa.relaxationFactor = m.s.w;
  std::string t = str("amg-", SK<S>::name()); c.note(str(s.N < 9 ? s.text() : str(kind, " n=", s.N), " ", t, " ", cn, txt, " w=", m.s.w, " it=", m.s.it));
  { auto op2 = std::make_shared<Op>(std::shared_ptr<const Mat>(A)); typename TT::H h(op2, std::make_shared<typename TT::PI>()); h.template build<typename TT::Flags>(cr); m.setup(mg::level(s), aggregates(h)); } if (std::pow(m.gamma, m.lv.size()) > 200) { m.gamma = 1; cr.setGamma(1); txt += " gamma:=1"; } 
  c.sig(str(t, cn, txt, kind, s.N, "L", m.lv.size(), m.s.it)); std::vector<std::unique_ptr<A_>> pool; pool.push_back(std::make_unique<A_>(op, cr, sa)); c.check(pool[0]->levels() == m.lv.size() && pool[0]->maxlevels() == m.lv.size(), t + "/levels", str(pool[0]->levels(), " expected ", m.lv.size()));
  std::vector<bool> ready(1, false); std::map<int, mg::V> seen; std::vector<mg::V> rhs; for (int i = 0; i < 3; ++i) rhs.push_back(randVec<double>(g, s.N * TT::n, false)); rhs.push_back(mg::V(s.N * TT::n, 0)); std::string hist; bool recalcd = false; int applies = 0;
  auto dirichlet = [&](const mg::V& x0, const mg::V& b, mg::V x) { auto& L = m.lv[0]; for (size_t i = 0; i < L.N; ++i) { bool d = L.p[i].count(i); for (auto j : L.p[i]) if (j != i) { auto D = L.block(i, j); for (auto v : D.a) d &= v == 0; } mg::V e(x0.begin() + i * L.n, x0.begin() + (i + 1) * L.n), y(x.begin() + i * L.n, x.begin() + (i + 1) * L.n); if (d) { mg::V r(b.begin() + i * L.n, b.begin() + (i + 1) * L.n); solve(L.block(i, i), r, e); } if (!close(y, e, 1e-10) && maxdiff(y, e) > 0) return str("row ", i, d ? " (uncoupled)" : "", " is ", show(y), " expected ", show(e)); } return std::string(); };
  int steps = g.range(4, 14); for (int k = 0; k < steps; ++k) {
    size_t o = g.range(0, pool.size() - 1); int what = g.range(0, 9);
    if (!ready[o]) { if (what == 0 && pool.size() < 3) { pool.push_back(std::make_unique<A_>(*pool[o])); ready.push_back(false); hist += str(" copy", o); continue; } if (what == 1 && pool.size() > 1) { pool.erase(pool.begin() + o); ready.erase(ready.begin() + o); hist += str(" destroy", o); continue; }
      if (what == 2 && std::find(ready.begin(), ready.end(), true) == ready.end()) { perturb(g, s); setValues(*A, s); m.revalue(mg::level(s)); for (auto& p : pool) p->recalculateHierarchy(); seen.clear(); hist += " recalc"; recalcd = true; continue; }
      mg::V x0 = randVec<double>(g, s.N * TT::n, false); auto& b0 = g.pick(rhs); X x(s.N), b(s.N); assign(x, x0); assign(b, b0); pool[o]->pre(x, b); ready[o] = true; hist += str(" pre", o); c.check(flatv(b) == b0, t + "/pre-changes-b", hist); std::string e = dirichlet(x0, b0, flatv(x)); c.check(e.empty(), t + "/pre-uncoupled-rows", e + hist); continue; }
    if (what == 0) { X x(s.N); x = 0; pool[o]->post(x); ready[o] = false; hist += str(" post", o); continue; }
    if (what == 1 && pool.size() < 3) { pool.push_back(std::make_unique<A_>(*pool[o])); ready.push_back(false); hist += str(" copy-active", o); continue; }
    int r = g.range(0, rhs.size() - 1); X v(s.N), d(s.N); v = 0; assign(d, rhs[r]); pool[o]->apply(v, d); ++applies; hist += str(" apply", o, "(d", r, ")"); auto got = flatv(v); c.check(flatv(d) == rhs[r], t + "/apply-changes-d", hist);
    std::string tag = t + (m.additive ? "-additive" : m.lv.size() == 1 ? "-direct" : ""); auto it = seen.find(r); if (it == seen.end()) { auto want = m(rhs[r]); c.check(close(got, want), tag + (recalcd ? "/after-recalculation" : "/cycle"), str("levels ", m.lv.size(), hist, ": ", show(got), " expected ", show(want), " diff ", maxdiff(got, want))); seen[r] = got; } else c.check(close(got, it->second, 1e-10), tag + "/repeated-application-differs", str(hist, ": ", show(got), " before ", show(it->second)));
  }
  c.ev(applies); c.check(compare(*A, s).empty(), t + "/matrix-changed", compare(*A, s));
}
template<class B, template<class, class, class, int> class S> static void anyCrit(vh::Case& c) { using TT = T<B>; using Sm = S<typename TT::Mat, typename TT::X, typename TT::X, 1>; if (c.rng.coin(0.7)) cycles<B, Sm, typename TT::SymC>(c, "sym"); else cycles<B, Sm, typename TT::UnsymC>(c, "unsym"); }
static const int BOUND[] = {25, 22, 35, 28, 18, 25, 90};
using B1 = FieldMatrix<double, 1, 1>; using B2 = FieldMatrix<double, 2, 2>;
VGROUP("cycle-jac", 150, 1500) { if (c.rng.coin(0.6)) anyCrit<B1, Dune::SeqJac>(c); else anyCrit<B2, Dune::SeqJac>(c); }
VGROUP("cycle-sor", 200, 2000) { if (c.rng.coin(0.6)) anyCrit<B1, Dune::SeqSOR>(c); else anyCrit<B2, Dune::SeqSOR>(c); }
VGROUP("cycle-ssor", 200, 2000) { if (c.rng.coin(0.6)) anyCrit<B1, Dune::SeqSSOR>(c); else anyCrit<B2, Dune::SeqSSOR>(c); }
VGROUP("cycle-ilu", 150, 1500) { if (c.rng.coin(0.6)) anyCrit<B1, Dune::SeqILU>(c); else anyCrit<B2, Dune::SeqILU>(c); }
VGROUP("cycle-number", 100, 1000) { using TT = T<double>; if (c.rng.coin()) cycles<double, Dune::SeqSSOR<TT::Mat, TT::X, TT::X, 1>, TT::SymC>(c, "number"); else cycles<double, Dune::SeqJac<TT::Mat, TT::X, TT::X, 1>, TT::SymC>(c, "number"); }

// ---- fast variant --------------------------------------------------------------------------------------
template<class B> static void fast(vh::Case& c) {
  auto& g = c.rng; using TT = T<B>; using Mat = typename TT::Mat; using X = typename TT::X; using Op = typename TT::Op; using F = Amg::FastAMG<Op, X>; using C = typename TT::SymC; Quiet q;
  std::string kind, txt; bool sym = g.coin(0.7); auto s = dominant<B>(g, g.coin(0.3) ? 12 : TT::n > 1 ? 35 : 60, kind, sym); auto A = std::make_shared<Mat>(); build(*A, s, g); auto op = std::make_shared<const Op>(std::shared_ptr<const Mat>(A)); mg::Cycle m; C cr = config<C>(g, m, txt, true); m.s.kind = mg::SOR; std::string t = sym ? "fastamg" : "fastamg-unsymmetric";
  c.note(str(s.N < 9 ? s.text() : str(kind, " n=", s.N), " ", t, txt)); { auto op2 = std::make_shared<Op>(std::shared_ptr<const Mat>(A)); typename TT::H h(op2, std::make_shared<typename TT::PI>()); h.template build<typename TT::Flags>(cr); m.setup(mg::level(s), aggregates(h)); } if (std::pow(m.gamma, m.lv.size()) > 200) { m.gamma = 1; cr.setGamma(1); txt += " gamma:=1"; } 
  c.sig(str(t, txt, kind, s.N, "L", m.lv.size())); std::vector<std::unique_ptr<F>> pool; pool.push_back(std::make_unique<F>(op, cr, cr, sym)); c.check(pool[0]->levels() == m.lv.size(), t + "/levels"); std::string hist; if (m.gamma > 1) t += "-w";
  std::vector<mg::V> rhs; for (int i = 0; i < 3; ++i) rhs.push_back(randVec<double>(g, s.N * TT::n, false)); bool recalcd = false;
  for (int k = g.range(2, 6); k-- > 0;) {
    size_t o = g.range(0, pool.size() - 1); if (g.coin(0.2) && pool.size() < 3) { pool.push_back(std::make_unique<F>(*pool[o])); hist += str(" copy", o); } else if (g.coin(0.2) && pool.size() > 1) { pool.erase(pool.begin() + o); hist += str(" destroy", o); o = 0; }
    if (g.coin(0.2)) { perturb(g, s); setValues(*A, s); m.revalue(mg::level(s)); for (auto& p : pool) p->recalculateHierarchy(); hist += " recalc"; recalcd = true; }
    X x(s.N), b(s.N); x = 0; assign(b, g.pick(rhs)); pool[o]->pre(x, b); hist += str(" pre", o); for (int a = g.range(0, 3); a-- > 0;) { auto& r = g.pick(rhs); X v(s.N), d(s.N); v = 0; assign(d, r); pool[o]->apply(v, d); hist += " apply"; auto got = flatv(v), want = m(r); c.check(flatv(d) == r, t + "/apply-changes-d", hist); c.check(close(got, want), t + (recalcd ? "/after-recalculation" : "/cycle"), str("levels ", m.lv.size(), hist, ": ", show(got), " expected ", show(want), " diff ", maxdiff(got, want))); } pool[o]->post(x);
  }
}
VGROUP("fastamg", 300, 3000) { if (c.rng.coin(0.6)) fast<B1>(c); else fast<B2>(c); }

// ---- Krylov cycle --------------------------------------------------------------------------------------
template<class X> struct LvOp : Dune::LinearOperator<X, X> { mg::Level* L; LvOp(mg::Level* l) : L(l) {} void apply(const X& x, X& y) const override { assign(y, L->mul(flatv(x))); } void applyscaleadd(double a, const X& x, X& y) const override { auto t = L->mul(flatv(x)), u = flatv(y); for (size_t i = 0; i < t.size(); ++i) u[i] += a * t[i]; assign(y, u); } Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; } };
template<class X, class K> struct KCycle { mg::Cycle& m; int steps; double red;
  struct P : Dune::Preconditioner<X, X> { KCycle& k; size_t l; P(KCycle& k_, size_t l_) : k(k_), l(l_) {} void pre(X&, X&) override {} void post(X&) override {} void apply(X& v, const X& d) override { assign(v, k.run(l, flatv(d))); } Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; } };
  mg::V run(size_t l, const mg::V& b) { mg::Cycle& M = m; if (l + 1 == M.lv.size()) return M.lv.back().direct(b); auto& L = M.lv[l]; mg::V u(L.size(), 0), r = b; auto add = [&](const mg::V& d, double f = 1) { for (size_t i = 0; i < u.size(); ++i) u[i] += f * d[i]; r = L.resid(b, u); };
    for (int i = 0; i < M.pre; ++i) add(mg::smooth(L, M.s, r, false)); mg::V rc = L.restrict_(r), e; if (l + 2 == M.lv.size()) e = M.lv.back().direct(rc); else { LvOp<X> A(&M.lv[l + 1]); Dune::SeqScalarProduct<X> sp; P p(*this, l + 1); K kr(A, sp, p, red, steps, 0); X x(M.lv[l + 1].N), bb(M.lv[l + 1].N); x = 0; assign(bb, rc); Dune::InverseOperatorResult res; kr.apply(x, bb, res); e = flatv(x); }
    add(L.prolong(e), M.damp); for (int i = 0; i < M.post; ++i) add(mg::smooth(L, M.s, r, M.s.kind == mg::SOR)); return u; } };
template<class B, class K> static void kcycle(vh::Case& c, const char* kn) {
  auto& g = c.rng; using TT = T<B>; using Mat = typename TT::Mat; using X = typename TT::X; using Op = typename TT::Op; using S = Dune::SeqSSOR<Mat, X, X>; using KA = Amg::KAMG<Op, X, S, Amg::SequentialInformation, K>; using C = typename TT::SymC; Quiet q;
  std::string kind, txt; auto s = dominant<B>(g, g.coin(0.3) ? 12 : TT::n > 1 ? 35 : 60, kind, true); auto A = std::make_shared<Mat>(); build(*A, s, g); Op op(*A); mg::Cycle m; C cr = config<C>(g, m, txt); cr.setAdditive(false); m.s.kind = mg::SSOR; m.pre = std::max(m.pre, 1); m.post = std::max(m.post, 1); cr.setNoPreSmoothSteps(m.pre); cr.setNoPostSmoothSteps(m.post); m.s.it = g.range(1, 2); m.s.w = g.real(0.6, 1.4); typename KA::SmootherArgs sa; sa.iterations = m.s.it; sa.relaxationFactor = m.s.w; KCycle<X, K> ref{m, int(g.range(1, 4)), g.pick({1e-1, 1e-3, 0.5})};
  std::string t = str("kamg-", kn); c.note(str(s.N < 9 ? s.text() : str(kind, " n=", s.N), " ", t, txt, " ksteps=", ref.steps, " red=", ref.red)); { auto op2 = std::make_shared<Op>(std::shared_ptr<const Mat>(A)); typename TT::H h(op2, std::make_shared<typename TT::PI>()); h.template build<typename TT::Flags>(cr); m.setup(mg::level(s), aggregates(h)); } if (std::pow(m.gamma, m.lv.size()) > 200) { m.gamma = 1; cr.setGamma(1); txt += " gamma:=1"; } 
  c.sig(str(t, txt, kind, s.N, "L", m.lv.size())); KA amg(op, cr, sa, ref.steps, ref.red); c.check(amg.maxlevels() == m.lv.size(), t + "/levels"); std::string hist;
  for (int k = g.range(1, 4); k-- > 0;) { auto b0 = randVec<double>(g, s.N * TT::n, false); X x(s.N), b(s.N); x = 0; assign(b, b0); amg.pre(x, b); hist += " pre"; for (int a = g.range(0, 3); a-- > 0;) { auto r = randVec<double>(g, s.N * TT::n, false); X v(s.N), d(s.N); v = 0; assign(d, r); amg.apply(v, d); hist += " apply"; auto got = flatv(v), want = ref.run(0, r); c.check(flatv(d) == r, t + "/apply-changes-d", hist); c.check(close(got, want, 1e-6), t + "/cycle", str("levels ", m.lv.size(), hist, ": ", show(got), " expected ", show(want), " diff ", maxdiff(got, want))); } amg.post(x); }
}
VGROUP("kamg", 250, 2500) { using X1 = T<B1>::X; using X2 = T<B2>::X; if (c.rng.coin(0.4)) kcycle<B1, Dune::GeneralizedPCGSolver<X1>>(c, "gpcg"); else if (c.rng.coin()) kcycle<B2, Dune::GeneralizedPCGSolver<X2>>(c, "gpcg"); else kcycle<B1, Dune::RestartedFCGSolver<X1>>(c, "fcg"); }

// ---- two-level method ----------------------------------------------------------------------------------
template<class B, class S> static void twolevel(vh::Case& c) {
  auto& g = c.rng; using TT = T<B>; using Mat = typename TT::Mat; using X = typename TT::X; using Op = typename TT::Op; using C = typename TT::SymC; using CP = Amg::OneStepAMGCoarseSolverPolicy<Op, S, C>; using TP = Amg::AggregationLevelTransferPolicy<Op, C>; using TL = Amg::TwoLevelMethod<Op, CP, S>; Quiet q;
  std::string kind, txt, txt2; auto s = dominant<B>(g, g.coin(0.3) ? 12 : TT::n > 1 ? 35 : 60, kind); auto A = std::make_shared<Mat>(); build(*A, s, g); Op op(*A); mg::Cycle fine, m; C c1 = config<C>(g, fine, txt), c2 = config<C>(g, m, txt2); mg::Smoother sf{SK<S>::k, int(g.range(1, 3)), 0}; sf.it = g.range(1, 3); sf.w = g.real(0.5, 1); m.s.kind = SK<S>::k; m.s.it = g.range(1, 2); m.s.w = g.real(0.5, 1); size_t pre = g.range(0, 2), post = g.range(0, 2);
  std::string t = str("twolevel-", SK<S>::name()); c.note(str(s.N < 9 ? s.text() : str(kind, " n=", s.N), " ", t, txt, " coarse:", txt2, " pre ", pre, " post ", post));
  mg::Level L = mg::level(s); { using MG = Amg::MatrixGraph<const Mat>; MG gr(*A); Amg::PropertiesGraph<MG, Amg::VertexProperties, Amg::EdgeProperties, Dune::IdentityMap, Dune::IdentityMap> pg(gr); Amg::AggregatesMap<size_t> map(pg.maxVertex() + 1); map.buildAggregates(*A, pg, c1, true); L.agg.resize(s.N); for (size_t i = 0; i < s.N; ++i) { L.agg[i] = map[i] == Amg::AggregatesMap<size_t>::ISOLATED ? mg::NONE : map[i]; if (L.agg[i] != mg::NONE) L.nc = std::max(L.nc, L.agg[i] + 1); } }
  if (L.nc == 0) { c.sig("no coarse level"); return; }
  { auto K = L.coarse(); Sp<B> cs; cs.N = cs.M = K.N; cs.p = K.p; for (size_t i = 0; i < K.N; ++i) for (auto j : K.p[i]) { auto D = K.block(i, j); B b; for (int r = 0; r < TT::n; ++r) for (int k = 0; k < TT::n; ++k) b[r][k] = D(r, k); cs.v[{i, j}] = b; } auto CA = std::make_shared<Mat>(); build(*CA, cs, g, 0); typename TT::H h(std::make_shared<Op>(std::shared_ptr<const Mat>(CA)), std::make_shared<typename TT::PI>()); h.template build<typename TT::Flags>(c2); m.setup(K, aggregates(h)); } if (std::pow(m.gamma, m.lv.size()) > 200) { m.gamma = 1; c2.setGamma(1); txt2 += " gamma:=1"; } 
  c.sig(str(t, txt, txt2, kind, s.N, pre, post, "L", m.lv.size())); auto sm = std::make_shared<S>(*A, sf.it, sf.w); typename CP::SmootherArgs sa; sa.iterations = m.s.it; sa.relaxationFactor = m.s.w; auto cp = std::make_unique<CP>(sa, c2); auto tp = std::make_unique<TP>(c1);
  std::vector<std::unique_ptr<TL>> pool; pool.push_back(std::make_unique<TL>(op, sm, *tp, *cp, pre, post)); if (g.coin()) { tp.reset(); cp.reset(); } std::string hist; auto ref = [&](const mg::V& b) { mg::V u(L.size(), 0), r = b; auto add = [&](const mg::V& d, double f) { for (size_t i = 0; i < u.size(); ++i) u[i] += f * d[i]; r = L.resid(b, u); }; for (size_t i = 0; i < pre; ++i) add(mg::smooth(L, sf, r, false), 1); add(L.prolong(m(L.restrict_(r))), fine.damp); for (size_t i = 0; i < post; ++i) add(mg::smooth(L, sf, r, sf.kind == mg::SOR), 1); return u; };
  for (int k = g.range(2, 6); k-- > 0;) { size_t o = g.range(0, pool.size() - 1); if (g.coin(0.3) && pool.size() < 3) { pool.push_back(std::make_unique<TL>(*pool[o])); hist += str(" copy", o); } else if (g.coin(0.2) && pool.size() > 1) { pool.erase(pool.begin() + o); hist += str(" destroy", o); o = 0; }
    X x(s.N), b(s.N); x = 0; assign(b, randVec<double>(g, L.size(), false)); pool[o]->pre(x, b); hist += str(" pre", o); for (int a = g.range(0, 3); a-- > 0;) { auto r = randVec<double>(g, L.size(), false); X v(s.N), d(s.N); v = 0; assign(d, r); pool[o]->apply(v, d); hist += str(" apply", o); auto got = flatv(v), want = ref(r); c.check(flatv(d) == r, t + "/apply-changes-d", hist); c.check(close(got, want), t + "/cycle", str("coarse levels ", m.lv.size(), hist, ": ", show(got), " expected ", show(want), " diff ", maxdiff(got, want))); if (g.coin(0.3) && pool.size() < 3) { pool.push_back(std::make_unique<TL>(*pool[o])); hist += str(" copy-active", o); } } pool[o]->post(x); }
}
VGROUP("twolevel", 250, 2500) { using T1 = T<B1>; using T2 = T<B2>; if (c.rng.coin(0.4)) twolevel<B1, Dune::SeqSSOR<T1::Mat, T1::X, T1::X>>(c); else if (c.rng.coin()) twolevel<B1, Dune::SeqSOR<T1::Mat, T1::X, T1::X>>(c); else twolevel<B2, Dune::SeqJac<T2::Mat, T2::X, T2::X>>(c); }

// ---- hierarchy and coarse solver supplied by the user -------------------------------------------------
template<class X> struct CoarseUser : Dune::InverseOperator<X, X> { mg::Cycle& m; int failAt = -1, calls = 0; CoarseUser(mg::Cycle& m_) : m(m_) {} void apply(X& x, X& b, Dune::InverseOperatorResult& r) override { r.clear(); r.converged = calls++ != failAt; assign(x, m.lv.back().direct(flatv(b))); } void apply(X& x, X& b, double, Dune::InverseOperatorResult& r) override { apply(x, b, r); } Dune::SolverCategory::Category category() const override { return Dune::SolverCategory::sequential; } };
template<class B> static void userHierarchy(vh::Case& c) {
  auto& g = c.rng; using TT = T<B>; using Mat = typename TT::Mat; using X = typename TT::X; using Op = typename TT::Op; using S = Dune::SeqSSOR<Mat, X, X>; using C = typename TT::SymC; using A_ = Amg::AMG<Op, X, S>; using F = Amg::FastAMG<Op, X>; Quiet q; bool fst = g.coin(0.4);
  std::string kind, txt; auto s = dominant<B>(g, 60, kind, fst); auto A = std::make_shared<Mat>(); build(*A, s, g); mg::Cycle m; C cr = config<C>(g, m, txt, fst); std::string t = fst ? "own-hierarchy-fast" : "own-hierarchy"; m.s.kind = fst ? mg::SOR : mg::SSOR; if (!fst) { m.s.it = g.range(1, 2); m.s.w = g.real(0.6, 1.3); }
  typename TT::H h(std::make_shared<Op>(std::shared_ptr<const Mat>(A)), std::make_shared<typename TT::PI>()); h.template build<typename TT::Flags>(cr); m.setup(mg::level(s), aggregates(h)); if (std::pow(m.gamma, m.lv.size()) > 200) { m.gamma = 1; cr.setGamma(1); txt += " gamma:=1"; } CoarseUser<X> cs(m); c.note(str(s.N < 9 ? s.text() : str(kind, " n=", s.N), " ", t, txt)); c.sig(str(t, txt, kind, s.N, "L", m.lv.size()));
  auto work = [&](auto& amg) { X x(s.N), b(s.N); x = 0; assign(b, randVec<double>(g, s.N * TT::n, false)); amg.pre(x, b); for (int k = 0; k < 4; ++k) { auto r = randVec<double>(g, s.N * TT::n, false); X v(s.N), d(s.N); v = 0; assign(d, r); bool fail = k == 1 && m.lv.size() > 1; if (fail) cs.failAt = cs.calls; bool thrown = false; try { amg.apply(v, d); } catch (const Dune::MathError&) { thrown = true; } if (fail) c.check(thrown, t + "/failed-coarse-solve-not-reported"); else { c.check(!thrown, t + "/failure-sticks", "a failed coarse solve makes later applications fail"); if (!thrown) { auto got = flatv(v), want = m(r); c.check(close(got, want), t + "/cycle", str("levels ", m.lv.size(), ": ", show(got), " expected ", show(want))); } } } amg.post(x); };
  if (fst) { F amg(h, cs, cr, true); work(amg); F cpy(amg); work(cpy); } else { typename A_::SmootherArgs sa; sa.iterations = m.s.it; sa.relaxationFactor = m.s.w; A_ amg(h, cs, sa, cr); c.check(amg.category() == Dune::SolverCategory::sequential, t + "/category"); work(amg); A_ cpy(amg); work(cpy); }
}
VGROUP("own-hierarchy", 100, 1000) { if (c.rng.coin()) userHierarchy<B1>(c); else userHierarchy<B2>(c); }

// ---- convergence on M-matrix model problems ------------------------------------------------------------
static Sp<B1> poisson(vh::Rng& g, std::string& txt, double& aniso) {
  int dim = g.coin(0.7) ? 2 : 3, n = dim == 2 ? g.pick({8, 16, 33, 48, 64}) : g.pick({5, 9, 14}); aniso = g.pick({1.0, 1.0, 1.0, 0.1}); double jump = g.pick({1.0, 1.0, 100.0}); bool nine = dim == 2 && g.coin(0.3); double mass = g.pick({0.0, 0.0, 0.01}); size_t N = dim == 2 ? n * n : n * n * n; Sp<B1> s; s.N = s.M = N; s.p.assign(N, {}); txt = str("poisson ", dim, "D n=", n, nine ? " 9-point" : "", " aniso=", aniso, " jump=", jump);
  auto k = [&](size_t i) { int x = i % n, y = i / n % n; return ((x / std::max(1, n / 2)) + (y / std::max(1, n / 2))) % 2 ? jump : 1.0; }; std::vector<double> dia(N, mass);
  for (size_t i = 0; i < N; ++i) { int x[3] = {int(i % n), int(i / n % n), int(i / n / n)}; s.p[i].insert(i); for (int dz = -1; dz <= 1; ++dz) for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { int cnt = std::abs(dx) + std::abs(dy) + std::abs(dz); if (!cnt || (dim == 2 && dz) || (cnt > 1 && !nine)) continue; double co = (cnt > 1 ? 0.5 : 1) * (dx == 0 ? aniso : 1); int X = x[0] + dx, Y = x[1] + dy, Z = x[2] + dz; if (X < 0 || Y < 0 || X >= n || Y >= n || (dim == 3 && (Z < 0 || Z >= n))) { dia[i] += co * k(i); continue; } size_t j = X + size_t(n) * (Y + size_t(n) * (dim == 3 ? Z : 0)); double v = co * 2 / (1 / k(i) + 1 / k(j)); s.p[i].insert(j); s.v[{i, j}] = B1(-v); dia[i] += v; } }
  for (size_t i = 0; i < N; ++i) s.v[{i, i}] = B1(dia[i]); return s;
}
VGROUP("convergence", 60, 400) {
  auto& g = c.rng; using TT = T<B1>; using Mat = TT::Mat; using X = TT::X; using Op = TT::Op; using C = TT::SymC; using S = Dune::SeqSSOR<Mat, X, X>; Quiet q; std::string txt; double aniso; auto s = poisson(g, txt, aniso); Mat A; buildPattern(A, s, g, 1); setValues(A, s); auto op = std::make_shared<Op>(A); int dim = txt.find("3D") != std::string::npos ? 3 : 2;
  C cr(15, g.pick({10, 50, 200})); if (aniso < 1) cr.setDefaultValuesAnisotropic(dim); else cr.setDefaultValuesIsotropic(dim); cr.setDebugLevel(0); int var = g.range(0, 6); const char* vn[] = {"v", "w", "fast", "fast-w", "kamg", "twolevel", "additive"}; cr.setGamma(var == 1 || var == 3 ? 2 : 1); cr.setAdditive(var == 6); cr.setNoPreSmoothSteps(1); cr.setNoPostSmoothSteps(1); Amg::DefaultSmootherArgs<double> sa; sa.iterations = 1; sa.relaxationFactor = 1;
  std::unique_ptr<Dune::Preconditioner<X, X>> P; std::shared_ptr<S> sm; if (var < 2 || var == 6) P = std::make_unique<Amg::AMG<Op, X, S>>(*op, cr, sa); else if (var < 4) P = std::make_unique<Amg::FastAMG<Op, X>>(op, cr, cr, true); else if (var == 4) P = std::make_unique<Amg::KAMG<Op, X, S>>(*op, cr, sa); else { sm = std::make_shared<S>(A, 1, 1.0); Amg::OneStepAMGCoarseSolverPolicy<Op, S, C> cp(sa, cr); Amg::AggregationLevelTransferPolicy<Op, C> tp(cr); P = std::make_unique<Amg::TwoLevelMethod<Op, decltype(cp), S>>(*op, sm, tp, cp, 1, 1); }
  std::string t = str("convergence-", vn[var]); c.note(txt + " " + t); c.sig(txt + t); X x(s.N), b(s.N), b0(s.N), xe(s.N); auto ex = randVec<double>(g, s.N, false); assign(xe, ex); A.mv(xe, b0); b = b0; x = 0; Dune::InverseOperatorResult r; if (var == 4) { Dune::RestartedFCGSolver<X> sol(*op, *P, 1e-8, 200, 0); sol.apply(x, b, r); } else { Dune::CGSolver<X> sol(*op, *P, 1e-8, 200, 0); sol.apply(x, b, r); }
  int bound = BOUND[var]; c.check(r.converged && r.iterations <= bound, t + "/slow", str(txt, ": ", r.iterations, " iterations", r.converged ? "" : " without convergence", ", bound ", bound)); X rr(b0); A.mmv(x, rr); c.check(rr.two_norm() <= 1.01e-8 * b0.two_norm() + 1e-13 * b0.two_norm() || rr.two_norm() <= 1e-6 * b0.two_norm(), t + "/defect", str(rr.two_norm() / b0.two_norm()));
  X x2(s.N), b2(b0); x2 = 0; int it = r.iterations; if (var == 4) { Dune::RestartedFCGSolver<X> sol(*op, *P, 1e-8, 200, 0); sol.apply(x2, b2, r); } else { Dune::CGSolver<X> sol(*op, *P, 1e-8, 200, 0); sol.apply(x2, b2, r); } c.check(r.iterations == it && flatv(x) == flatv(x2), t + "/second-solve-differs", str(it, " then ", r.iterations, " iterations")); if (const char* f = getenv("VH_IT")) if (FILE* o = fopen(f, "a")) { fprintf(o, "%s %d %s\n", vn[var], it, txt.c_str()); fclose(o); }
}
// ---- memory: using a preconditioner again and again does not consume memory ----------------------------
VGROUP("memory", 40, 300) {
  auto& g = c.rng; using TT = T<B1>; using Mat = TT::Mat; using X = TT::X; using Op = TT::Op; using C = TT::SymC; using S = Dune::SeqSSOR<Mat, X, X>; Quiet q; std::string kind, txt; auto s = dominant<B1>(g, 60, kind, true); auto A = std::make_shared<Mat>(); build(*A, s, g); auto op = std::make_shared<Op>(std::shared_ptr<const Mat>(A)); mg::Cycle m; C cr = config<C>(g, m, txt); cr.setDebugLevel(0); int var = g.range(0, 3); const char* vn[] = {"amg", "fast", "kamg", "twolevel"}; std::string t = str("memory-", vn[var]); c.note(kind + t + txt); c.sig(kind + t + txt + str(s.N));
  auto life = [&](bool check) { Amg::DefaultSmootherArgs<double> sa; std::unique_ptr<Dune::Preconditioner<X, X>> P; if (var == 0) P = std::make_unique<Amg::AMG<Op, X, S>>(*op, cr, sa); else if (var == 1) P = std::make_unique<Amg::FastAMG<Op, X>>(op, cr, cr, true); else if (var == 2) { cr.setAdditive(false); P = std::make_unique<Amg::KAMG<Op, X, S>>(*op, cr, sa); } else { auto sm = std::make_shared<S>(*A, 1, 1.0); Amg::OneStepAMGCoarseSolverPolicy<Op, S, C> cp(sa, cr); Amg::AggregationLevelTransferPolicy<Op, C> tp(cr); P = std::make_unique<Amg::TwoLevelMethod<Op, decltype(cp), S>>(*op, sm, tp, cp, 1, 1); }
    X x(s.N), b(s.N), v(s.N); size_t base = 0; for (int k = 0; k < 4; ++k) { x = 0; b = 1; P->pre(x, b); v = 0; P->apply(v, b); P->post(x); size_t now = heapBytes(); if (k == 1) base = now; if (k == 3 && check) c.check(now <= base, t + "/grows-with-each-solve", str(now - base, " bytes in two solves")); } };
  { Sp<B1> q2 = s; if (var == 3) { auto map = Amg::AggregatesMap<size_t>(s.N); Amg::MatrixGraph<const Mat> gr(*A); Amg::PropertiesGraph<Amg::MatrixGraph<const Mat>, Amg::VertexProperties, Amg::EdgeProperties, Dune::IdentityMap, Dune::IdentityMap> pg(gr); int no = std::get<0>(map.buildAggregates(*A, pg, cr, true)); if (no == 0) return; } }
  life(false); size_t before = heapBytes(); life(true); size_t after = heapBytes(); c.check(after <= before, t + "/leak", str(after - before, " bytes remain allocated after destruction"));
}
