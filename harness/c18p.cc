// C18 in parallel: configured objects against directly constructed ones on distributed systems; block wrapping of
// sequential preconditioners, parallel multigrid, and refusal of sequential direct solvers.
#include "config.h"
#include <complex>
#include <dune/istl/cholmod.hh>
#include <dune/istl/ldl.hh>
#include <dune/istl/spqr.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/preconditioners.hh>
#ifdef WITH_AMG
#include <dune/istl/paamg/amg.hh>
#endif
#include <dune/istl/solvers.hh>
#include <dune/istl/solverfactory.hh>
#include "dsys.hh"
using Dune::ParameterTree; namespace Amg = Dune::Amg;
#if BS == 2
using B = FieldMatrix<double, 2, 2>;
#else
using B = FieldMatrix<double, 1, 1>;
#endif
using Pr = Prob<B, int>; using K = Pr::K; using V = Pr::V; using Mat = Pr::Mat; using Comm = Pr::Comm; constexpr bool nov = NOV;
using Op = std::conditional_t<nov, NonoverlappingSchwarzOperator<Mat, V, V, Comm>, OverlappingSchwarzOperator<Mat, V, V, Comm>>; using Prec = Preconditioner<V, V>; using Solver = InverseOperator<V, V>;
static const int initDone = Dune::initSolverFactories<Op>();
static std::string text(const ParameterTree& t, const std::string& pre = "") { std::string s; for (auto& k : t.getValueKeys()) s += pre + k + "=" + t[k] + " "; for (auto& k : t.getSubKeys()) s += text(t.sub(k), pre + k + "."); return s; }
template<class T> static bool put(vh::Rng& g, ParameterTree& t, const char* key, T& var, const T& val, double prob = 0.6) { if (!g.coin(prob)) return false; var = val; std::ostringstream o; o << std::boolalpha << val; t[key] = o.str(); return true; }
template<class S> static std::shared_ptr<Prec> wrap(std::shared_ptr<S> s, const Comm& c) { if constexpr (nov) return std::make_shared<NonoverlappingBlockPreconditioner<Comm, S>>(s, c); else return std::make_shared<BlockPreconditioner<V, V, Comm, S>>(s, c); }
static std::shared_ptr<Prec> makePrec(vh::Rng& g, const Mat& M, const Comm& C, ParameterTree& t, bool sequential = false) {
  std::string type = g.pick({"ssor", "sor", "gs", "jac", "dilu", "ilu", "richardson"}); t["type"] = type; int it = 1, n = 0; double w = 1; bool resort = false; put(g, t, "relaxation", w, g.pick({0.5, 0.75, 1.25})); if (type == "ssor" || type == "sor" || type == "gs" || type == "jac") put(g, t, "iterations", it, int(g.range(0, 3))); if (type == "ilu") { put(g, t, "n", n, int(g.range(0, 2))); put(g, t, "resort", resort, g.coin()); }
  auto fin = [&](auto s) -> std::shared_ptr<Prec> { if (sequential) return s; return wrap(s, C); };
  if (type == "ssor") return fin(std::make_shared<SeqSSOR<Mat, V, V>>(M, it, w)); if (type == "sor") return fin(std::make_shared<SeqSOR<Mat, V, V>>(M, it, w)); if (type == "gs") return fin(std::make_shared<SeqGS<Mat, V, V>>(M, it, w)); if (type == "jac") return fin(std::make_shared<SeqJac<Mat, V, V>>(M, it, w)); if (type == "dilu") return fin(std::make_shared<SeqDILU<Mat, V, V>>(M, w)); if (type == "ilu") return fin(std::make_shared<SeqILU<Mat, V, V>>(M, n, w, resort)); return fin(std::make_shared<Richardson<V, V>>(w)); }
static void compare(mp::Case& c, const Pr& p, const V& a, const V& b, const std::string& key) { auto x = flatten<K>(a), y = flatten<K>(b); if (!finite(x) && !finite(y)) return; c.check(maxdiff(x, y) <= 1e-9 * (maxabs(x) + maxabs(p.x) * 1e-3), key, str("configured ", show(y), " direct ", show(x))); }
static std::shared_ptr<Op> theOp(const Pr& p) { return std::static_pointer_cast<Op>(p.op); }
#ifndef WITH_AMG
static void comparePrec(mp::Case& c, const Pr& p, Prec& a, Prec& b, const std::string& key) { c.check(a.category() == b.category() && b.category() == p.d.cat, key + "-category"); vh::Rng lg = c.local(7); V d(p.nl()); ref::assign(d, randVec<K>(lg, p.nl() * p.n, false)); V e(d), v(p.nl()), w(p.nl()), x(p.nl()), y(p.nl()); v = 0; w = 0; x = p.spread(p.x); y = x; a.pre(x, d); b.pre(y, e); int r = c.rng.range(1, 2); while (r--) { v = 0; w = 0; a.apply(v, d); b.apply(w, e); } a.post(x); b.post(y); compare(c, p, v, w, key); compare(c, p, x, y, key + "-pre"); }
MGROUP("preconditioners", 150, 4000) { auto& g = c.rng; Pr p(c, nov, 24, 1.2, 0); ParameterTree t; auto d = makePrec(g, p.M, *p.C, t); c.note(str(text(t), p.kind)); auto f = Dune::getPreconditionerFromFactory(theOp(p), t); comparePrec(c, p, *d, *f, t["type"]); c.sig(str(text(t), p.kind)); }
struct SS { std::string type; double red; int maxit, restart = 4, mmax = 10; };
static SS makeSolver(vh::Rng& g, ParameterTree& t) { SS s; s.type = g.pick({"loopsolver", "gradientsolver", "cgsolver", "bicgstabsolver", "minressolver", "restartedgmressolver", "restartedflexiblegmressolver", "generalizedpcgsolver", "restartedfcgsolver", "completefcgsolver"}); t["type"] = s.type; s.red = g.coin() ? 1.0 / (1ll << 40) : g.pick({0.0625, 0.001953125}); t["reduction"] = str(s.red); s.maxit = g.range(1, 7); t["maxit"] = str(s.maxit); t["verbose"] = g.pick({"0", "0", "2"}); if (s.type == "restartedgmressolver" || s.type == "restartedflexiblegmressolver" || s.type == "generalizedpcgsolver") { s.restart = g.range(1, 4); t["restart"] = str(s.restart); } if (s.type == "restartedfcgsolver" || s.type == "completefcgsolver") put(g, t, "mmax", s.mmax, int(g.range(0, 4))); return s; }
static std::shared_ptr<Solver> direct(const SS& s, std::shared_ptr<Op> op, std::shared_ptr<Prec> p, std::shared_ptr<ScalarProduct<V>> sp) { auto& n = s.type;
  if (n == "loopsolver") return std::make_shared<LoopSolver<V>>(op, sp, p, s.red, s.maxit, 0); if (n == "gradientsolver") return std::make_shared<GradientSolver<V>>(op, sp, p, s.red, s.maxit, 0); if (n == "cgsolver") return std::make_shared<CGSolver<V>>(op, sp, p, s.red, s.maxit, 0); if (n == "bicgstabsolver") return std::make_shared<BiCGSTABSolver<V>>(op, sp, p, s.red, s.maxit, 0); if (n == "minressolver") return std::make_shared<MINRESSolver<V>>(op, sp, p, s.red, s.maxit, 0);
  if (n == "restartedgmressolver") return std::make_shared<RestartedGMResSolver<V>>(op, sp, p, s.red, s.restart, s.maxit, 0); if (n == "restartedflexiblegmressolver") return std::make_shared<RestartedFlexibleGMResSolver<V>>(op, sp, p, s.red, s.restart, s.maxit, 0); if (n == "generalizedpcgsolver") return std::make_shared<GeneralizedPCGSolver<V>>(op, sp, p, s.red, s.maxit, 0, s.restart); if (n == "restartedfcgsolver") return std::make_shared<RestartedFCGSolver<V>>(op, sp, p, s.red, s.maxit, 0, s.mmax); return std::make_shared<CompleteFCGSolver<V>>(op, sp, p, s.red, s.maxit, 0, s.mmax); }
MGROUP("solvers", 200, 5000) { auto& g = c.rng; Quiet q; Pr p(c, nov, 30, 1.2, 0); ParameterTree t; SS s = makeSolver(g, t); ParameterTree pt; int how = g.range(0, 2); auto pd = makePrec(g, p.M, *p.C, pt, how == 2); if (how == 0) t.sub("preconditioner") = pt; c.note(str(text(t), how ? "runtime " + text(pt) : "", p.kind));
  auto wrapped = how == 2 ? wrap(pd, *p.C) : pd; auto a = direct(s, theOp(p), wrapped, createScalarProduct<V>(*p.C, p.d.cat)); auto b = how == 0 ? Dune::getSolverFromFactory(theOp(p), t) : Dune::getSolverFromFactory(theOp(p), t, pd); c.check(a->category() == b->category(), s.type + "-category");
  auto run = [&](Solver& sv, V& x, InverseOperatorResult& r) -> std::string { x = p.spread(std::vector<K>(p.N * p.n, K(0))); V y = p.spread(p.b); if (nov) for (size_t i = 0; i < p.nl(); ++i) if (p.d.loc[p.rank][i].attr == Overlap) y[i] = 0; try { sv.apply(x, y, r); return ""; } catch (const Dune::SolverAbort& e) { return "abort"; } };
  V x, y; InverseOperatorResult r1, r2; auto e1 = run(*a, x, r1), e2 = run(*b, y, r2); bool tiny = !(r1.reduction > 1e-9 && r2.reduction > 1e-9 && r1.reduction < 1e9) || !e1.empty() || !e2.empty(); if (tiny) { c.ev(); return; } // rounding decides about the last steps
  bool border = std::abs(r1.reduction / s.red - 1) < 1e-6; if (border) return; c.check(e1 == e2, s.type + "-outcome", str(e1, " ", e2)); c.check(r1.iterations == r2.iterations && r1.converged == r2.converged, s.type + "-iterations", str("direct ", r1.iterations, " ", r1.converged, " configured ", r2.iterations, " ", r2.converged)); c.check(std::abs(r1.reduction - r2.reduction) <= 1e-6 * (r1.reduction + 1e-8), s.type + "-reduction", str(r1.reduction, " ", r2.reduction));
  auto fx = flatten<K>(x), fy = flatten<K>(y); c.check(maxdiff(fx, fy) <= 1e-6 * (maxabs(fx) + maxabs(p.x)), s.type + "-iterate", str("configured ", show(fy), " direct ", show(fx))); c.sig(str(text(t), text(pt), how, p.kind)); }
MGROUP("refusals", 40, 600) { auto& g = c.rng; Quiet q; Pr p(c, nov, 20, 1.2, 0, false, false, 1); ParameterTree t; int k = g.range(0, 6); bool throws = true, ok = false; std::string what; if (k < 5) { what = g.pick({"spqr", "ldl", "cholmod", "umfpack", "superlu"}); t["type"] = what; throws = c.size > 1; } else if (k == 5) { makeSolver(g, t); what = "preconditioner"; t.sub("preconditioner")["type"] = "unknown"; } else { what = "solver"; t["type"] = "unknown"; } c.note(str(text(t), p.kind));
  std::shared_ptr<Solver> s; try { s = Dune::getSolverFromFactory(theOp(p), t); ok = true; } catch (const Dune::InvalidStateException&) { } c.check(ok == !throws, what + (throws ? "-not-refused" : "-refused")); if (s) { V x(p.nl()), b = p.spread(p.b); x = 0; InverseOperatorResult r; s->apply(x, b, r); if (!nov || c.size == 1) { std::string e = p.compareTo(x, p.x, 1e-8, true, true); c.check(e.empty(), what + "-solution", e); } } c.sig(str(what, c.size, p.kind)); }
#else
template<class S> static std::shared_ptr<Prec> amg(std::shared_ptr<const Op> op, const Comm& C, int norm, bool sym, const std::function<void(Amg::Parameters&)>& set, int it, double w) {
  std::shared_ptr<Prec> r; typename Amg::SmootherTraits<S>::Arguments a; a.iterations = it; a.relaxationFactor = w; auto go = [&](auto nm) { using N = decltype(nm); auto with = [&](auto cr) { set(cr); r = std::make_shared<Amg::AMG<Op, V, S, Comm>>(*op, cr, a, C); }; if (sym) with(Amg::CoarsenCriterion<Amg::SymmetricCriterion<Mat, N>>()); else with(Amg::CoarsenCriterion<Amg::UnSymmetricCriterion<Mat, N>>()); };
  switch (norm) { case 0: go(Amg::Diagonal<0>()); break; case 5: go(Amg::RowSum()); break; case 6: go(Amg::FrobeniusNorm()); break; default: go(Amg::AlwaysOneNorm()); } return r; }
template<class Q> using Bl = std::conditional_t<nov, NonoverlappingBlockPreconditioner<Comm, Q>, BlockPreconditioner<V, V, Comm, Q>>;
// at most two processes: with more, the order of the arriving messages decides about the rounding and thereby about the inexact coarse solves
MGROUP("amg", 150, 3000) { auto& g = c.rng; Quiet q; Pr p(c, nov, 50, 1.2, 0, false, true); ParameterTree t; t["type"] = "amg"; std::string sm = "ssor"; if (g.coin(0.8)) { sm = g.pick({"ssor", "sor", "jac", "gs", "ilu"}); t["smoother"] = sm; } int its = 1; double w = 1; put(g, t, "smootherIterations", its, int(g.range(1, 2))); put(g, t, "smootherRelaxation", w, g.pick({0.5, 0.75}));
  int norm = 0; if (g.coin(0.5)) { norm = g.pick({0, 5, 6, 7}); t["strengthMeasure"] = norm == 0 ? "diagonal" : norm == 5 ? "rowSum" : norm == 6 ? "frobenius" : "one"; } bool sym = true; put(g, t, "criterionSymmetric", sym, g.coin()); struct { int has = 0, target, accu, gamma, pre, post; double rate; } v; auto opt = [&](int bit, const char* key, auto& var, auto val) { std::decay_t<decltype(var)> x = val; if (put(g, t, key, var, x, 0.5)) v.has |= 1 << bit; };
  v.has |= 1; v.target = g.pick({2, 5, 10, 30}); t["coarsenTarget"] = str(v.target); if (g.coin(0.7)) { v.has |= 2; v.accu = nov && p.d.kind.find("ghosts") == std::string::npos ? 0 : g.range(0, 2); t["accumulationMode"] = v.accu == 0 ? "none" : v.accu == 1 ? "atOnce" : "successive"; } else if (nov && p.d.kind.find("ghosts") == std::string::npos) { v.has |= 2; v.accu = 0; t["accumulationMode"] = "none"; } opt(2, "minCoarseningRate", v.rate, g.pick({1.125, 1.5, 2.75})); opt(3, "gamma", v.gamma, int(g.range(1, 2))); opt(4, "preSteps", v.pre, int(g.range(1, 2))); opt(5, "postSteps", v.post, int(g.range(0, 2)));
  c.note(str(text(t), p.kind)); auto set = [v](Amg::Parameters& cr) { auto h = [&](int b) { return (v.has >> b) & 1; }; cr.setCoarsenTarget(v.target); if (h(1)) cr.setAccumulate(v.accu == 0 ? Amg::noAccu : v.accu == 1 ? Amg::atOnceAccu : Amg::successiveAccu); if (h(2)) cr.setMinCoarsenRate(v.rate); if (h(3)) cr.setGamma(v.gamma); if (h(4)) cr.setNoPreSmoothSteps(v.pre); if (h(5)) cr.setNoPostSmoothSteps(v.post); cr.setDebugLevel(0); };
  auto d = sm == "ssor" ? amg<Bl<SeqSSOR<Mat, V, V>>>(theOp(p), *p.C, norm, sym, set, its, w) : sm == "sor" ? amg<Bl<SeqSOR<Mat, V, V>>>(theOp(p), *p.C, norm, sym, set, its, w) : sm == "jac" ? amg<Bl<SeqJac<Mat, V, V>>>(theOp(p), *p.C, norm, sym, set, its, w) : sm == "gs" ? amg<Bl<SeqGS<Mat, V, V>>>(theOp(p), *p.C, norm, sym, set, its, w) : amg<Bl<SeqILU<Mat, V, V>>>(theOp(p), *p.C, norm, sym, set, its, w);
  auto f = Dune::getPreconditionerFromFactory(theOp(p), t); c.check(d->category() == f->category(), "amg-category"); V dd = p.spread(p.b), v1(p.nl()), v2(p.nl()), x(p.nl()); if (nov) for (size_t i = 0; i < p.nl(); ++i) if (p.d.loc[p.rank][i].attr == Overlap) dd[i] = 0; V e(dd); x = 0; V y(x); d->pre(x, dd); f->pre(y, e); v1 = 0; v2 = 0; d->apply(v1, dd); f->apply(v2, e); d->post(x); f->post(y); compare(c, p, v1, v2, sm + "-update"); c.sig(str(text(t), p.kind)); }
#endif
