// C17: parallel operators, preconditioners and solvers.  Every process knows the global system; operators and block
// preconditioners are compared with their global algebraic meaning, solves with the dense global solution, and the
// parallel multigrid hierarchy (gathered from all processes) and its cycle with a sequential model.
#include "config.h"
#include <complex>
#include <dune/common/bigunsignedint.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/owneroverlapcopy.hh>
#include <dune/istl/schwarz.hh>
#include <dune/istl/novlpschwarz.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/paamg/amg.hh>
#include "dprob.hh"
#include "amgref.hh"
using namespace dp; using namespace Dune; namespace Amg = Dune::Amg;
#include "dsys.hh"
// ---- operators ---------------------------------------------------------------------------------------------------
template<class B, class G> static void operators(mp::Case& c, const char* nm) {
  auto& g = c.rng; using Pr = Prob<B, G>; using K = typename Pr::K; using V = typename Pr::V; bool nov = g.coin(); Pr p(c, nov, 24, 1.2, 1000); c.note(str(nm, " ", p.kind)); c.check(p.op->category() == p.d.cat, "category");
  int rounds = g.range(1, 4); for (int r = 0; r < rounds; ++r) { auto u = randVec<K>(g, p.N * p.n, false), w = randVec<K>(g, p.N * p.n, false); K al = g.coin(0.3) ? K(-1) : realVal<K>(g); auto Au = p.A.D.mul(u);
    V x = p.spread(u, nov ? std::initializer_list<int>{Overlap} : std::initializer_list<int>{}), x0 = x, y(p.nl()); y = 5; if (g.coin()) { p.op->apply(x, y); std::string e = p.compareTo(y, Au, 1e-12, true, !nov, !nov); c.check(e.empty(), nov ? "nonoverlapping-apply" : "overlapping-apply", str(nm, " ", e)); }
    else { auto t = w; for (size_t i = 0; i < t.size(); ++i) t[i] += al * Au[i]; y = p.spread(w, nov ? std::initializer_list<int>{Overlap} : std::initializer_list<int>{Copy}); p.op->applyscaleadd(al, x, y); std::string e = p.compareTo(y, t, 1e-12, true, !nov, !nov); c.check(e.empty(), nov ? "nonoverlapping-applyscaleadd" : "overlapping-applyscaleadd", str(nm, " ", e)); }
    c.check(flatten<K>(x) == flatten<K>(x0), "changes-x"); }
  if (p.N) c.sig(str(nm, nov, p.kind));
}
// ---- block preconditioners -----------------------------------------------------------------------------------------
template<class Pr> static std::shared_ptr<Preconditioner<typename Pr::V, typename Pr::V>> sequential(int kind, const typename Pr::Mat& M, int it, double w) { using Mat = typename Pr::Mat; using V = typename Pr::V; switch (kind) { case 0: return std::make_shared<SeqJac<Mat, V, V>>(M, it, w); case 1: return std::make_shared<SeqSOR<Mat, V, V>>(M, it, w); case 2: return std::make_shared<SeqSSOR<Mat, V, V>>(M, it, w); case 3: return std::make_shared<SeqGS<Mat, V, V>>(M, it, w); case 4: return std::make_shared<SeqILU<Mat, V, V>>(M, 0, w); case 5: return std::make_shared<SeqILU<Mat, V, V>>(M, 1, w); default: return std::make_shared<Richardson<V, V>>(w); } }
static const char* precName(int k) { static const char* n[] = {"jac", "sor", "ssor", "gs", "ilu0", "ilu1", "richardson", "parssor"}; return n[k]; }
template<class Pr> static std::shared_ptr<Preconditioner<typename Pr::V, typename Pr::V>> parallel(const Pr& p, int kind, int it, double w) { using V = typename Pr::V; using Comm = typename Pr::Comm; if (kind == 7) return std::make_shared<ParSSOR<typename Pr::Mat, V, V, Comm>>(p.M, it, w, *p.C); auto s = sequential<Pr>(kind, p.M, it, w); using P = Preconditioner<V, V>; if (p.nov) return std::make_shared<NonoverlappingBlockPreconditioner<Comm, P>>(s, *p.C); return std::make_shared<BlockPreconditioner<V, V, Comm, P>>(s, *p.C); }
template<class B, class G> static void preconditioners(mp::Case& c, const char* nm) {
  auto& g = c.rng; using Pr = Prob<B, G>; using K = typename Pr::K; using V = typename Pr::V; bool nov = g.coin(0.4); Pr p(c, nov, 24, 1.2, 0); int kind = g.range(0, nov ? 6 : 7), it = g.range(1, 2); double w = g.pick({1.0, 0.7}); c.note(str(nm, " ", precName(kind), " ", p.kind)); std::string key = str(nov ? "nonoverlapping-" : "overlapping-", precName(kind));
  auto par = parallel(p, kind, it, w); auto seq = sequential<Pr>(kind == 7 ? 2 : kind, p.M, it, w); c.check(par->category() == p.d.cat, key + "-category");
  auto u0 = randVec<K>(g, p.N * p.n, false), bb = randVec<K>(g, p.N * p.n, false); V x = p.spread(u0, nov ? std::initializer_list<int>{} : std::initializer_list<int>{Copy, Overlap}), b = p.spread(bb), b0 = b; par->pre(x, b); { std::string e = p.compareTo(x, u0, 0, true, true); c.check(e.empty(), key + "-pre", e); c.check(flatten<K>(b) == flatten<K>(b0), key + "-pre-changes-b"); }
  int rounds = g.range(1, 3); for (int r = 0; r < rounds; ++r) { vh::Rng lg = c.local(r); V d(p.nl()); ref::assign(d, randVec<K>(lg, p.nl() * p.n, false)); V d0 = d, v(p.nl()), v1(p.nl()); v = 0; v1 = 0; par->apply(v, d); c.check(flatten<K>(d) == flatten<K>(d0), key + "-changes-defect"); seq->apply(v1, d);
    auto all = gatherAll<K>(p.P, flatten<K>(v1)); auto got = flatten<K>(v); auto& mine = p.d.loc[p.rank]; for (size_t i = 0; i < p.nl(); ++i) for (size_t k = 0; k < p.n; ++k) { K want = all[p.rank][i * p.n + k]; if (!nov) { if (mine[i].attr != Owner) { int o = p.d.owner[mine[i].g]; want = all[o][p.d.pos(o, mine[i].g) * p.n + k]; } } else if (mine[i].attr != Overlap) { want = 0; for (int q = 0; q < p.P; ++q) { long l = p.d.pos(q, mine[i].g); if (l >= 0 && p.d.loc[q][l].attr != Overlap) want += all[q][l * p.n + k]; } }
      if (!c.check(dabs(K(got[i * p.n + k] - want)) <= 1e-13 * (1 + dabs(want)), key + "-apply", str(nm, " global ", mine[i].g, ": ", got[i * p.n + k], " instead of ", want))) return; } }
  par->post(x); if (p.N) c.sig(str(nm, key, p.kind));
}
// ---- Krylov solvers --------------------------------------------------------------------------------------------------
enum { Loop, Grad, CG, BiCG, MinRes, Gmres, FGmres, GPCG, FCG, NSolvers };
static const char* solverName(int k) { static const char* n[] = {"loop", "gradient", "cg", "bicgstab", "minres", "gmres", "fgmres", "pcg", "fcg"}; return n[k]; }
template<class V> static std::shared_ptr<InverseOperator<V, V>> solver(int k, std::shared_ptr<LinearOperator<V, V>> op, std::shared_ptr<ScalarProduct<V>> sp, std::shared_ptr<Preconditioner<V, V>> pr, double red, int restart, int maxit) { using F = typename V::field_type; (void)sizeof(F);
  switch (k) { case Loop: return std::make_shared<LoopSolver<V>>(op, sp, pr, red, maxit, 0); case Grad: return std::make_shared<GradientSolver<V>>(op, sp, pr, red, maxit, 0); case CG: return std::make_shared<CGSolver<V>>(op, sp, pr, red, maxit, 0); case BiCG: return std::make_shared<BiCGSTABSolver<V>>(op, sp, pr, red, maxit, 0); case MinRes: return std::make_shared<MINRESSolver<V>>(op, sp, pr, red, maxit, 0); case Gmres: return std::make_shared<RestartedGMResSolver<V>>(op, sp, pr, red, restart, maxit, 0); case FGmres: return std::make_shared<RestartedFlexibleGMResSolver<V>>(op, sp, pr, red, restart, maxit, 0); case GPCG: return std::make_shared<GeneralizedPCGSolver<V>>(op, sp, pr, red, maxit, 0, restart); default: return std::make_shared<RestartedFCGSolver<V>>(op, sp, pr, red, maxit, 0, restart); } }
template<class Pr> static void verify(mp::Case& c, Pr& p, typename Pr::V& x, const std::vector<typename Pr::K>& u0, const InverseOperatorResult& res, double red, const std::string& key, bool mustConverge, bool trueResidual) { using K = typename Pr::K;
  struct R { double it, conv, red, rate; }; R r{double(res.iterations), double(res.converged), res.reduction, res.conv_rate}; auto all = gatherAll<R>(p.P, {r}); for (int q = 0; q < p.P; ++q) { c.check(all[q][0].it == r.it, key + "-iterations-differ", str(r.it, " and ", all[q][0].it)); c.check(all[q][0].conv == r.conv, key + "-verdicts-differ"); c.check(std::memcmp(&all[q][0].red, &r.red, 8) == 0, key + "-reductions-differ", str(r.red, " and ", all[q][0].red)); }
  if (mustConverge) c.check(res.converged, key + "-not-converged", str(res.iterations, " iterations, reduction ", res.reduction)); if (!res.converged) return;
  auto u = p.global(x); auto res0 = p.A.D.mul(u0), res1 = p.A.D.mul(u); for (size_t i = 0; i < res0.size(); ++i) { res0[i] = p.b[i] - res0[i]; res1[i] = p.b[i] - res1[i]; } double n0 = norm2(res0), n1 = norm2(res1); c.check(n1 <= (trueResidual ? 1.01 : 1e4) * red * n0 + 1e-12 * (norm2(p.b) + n0), key + "-residual", str("reduced from ", n0, " to ", n1, ", requested ", red)); // the left preconditioned solvers measure the preconditioned residual
  std::string e = p.compareTo(x, p.x, (trueResidual ? 1e3 : 1e6) * red * (n0 / (maxabs(p.x) + 1e-300) + 1) + 1e-9, true, !p.nov); c.check(e.empty(), key + "-solution", e); e = p.compareTo(x, u, 1e-8, true, !p.nov); c.check(e.empty(), key + "-inconsistent-copies", e); }
template<class B, class G> static void krylov(mp::Case& c, const char* nm) {
  auto& g = c.rng; using Pr = Prob<B, G>; using K = typename Pr::K; using V = typename Pr::V; bool nov = g.coin(0.4); Pr p(c, nov, 26, g.pick({1.2, 2.0}), 0); bool ov = false; for (auto& l : p.d.loc) for (auto& e : l) ov |= !nov && e.attr == Overlap;
  int s, k; double w = g.pick({1.0, 0.8}); do { s = g.range(0, NSolvers - 1); k = g.range(0, nov ? 6 : 7); bool symP = k == 0 || k == 2 || k == 7 || k >= 4, spd = p.sym && symP && !ov; if ((s == Grad || s == CG || s == MinRes || s == GPCG || s == FCG) && !spd) continue; if ((s == Loop && (nov || k == 6)) || (s == Grad && k == 6)) continue; break; } while (true);
  int it = g.range(1, 2); if (k == 0) { it = 1; } double red = g.pick({1e-6, 1e-8, 1e-10}); int restart = g.pick({5, 20, 100}); std::string key = str(nov ? "nonoverlapping-" : "overlapping-", solverName(s)); c.note(str(nm, " ", key, " ", precName(k), " ", p.kind)); auto pr = parallel(p, k, it, w); auto sp = createScalarProduct<V>(*p.C, p.d.cat);
  auto sv = solver<V>(s, p.op, sp, pr, red, restart, 2000); int rounds = g.range(1, 2); for (int r = 0; r < rounds; ++r) { auto u0 = g.coin() ? randVec<K>(g, p.N * p.n, false) : std::vector<K>(p.N * p.n, K(0)); V x = p.spread(u0, nov ? std::initializer_list<int>{} : std::initializer_list<int>{Copy}), b = nov ? p.spread(p.b) : p.spread(p.b, {Copy}); if (nov) { for (size_t i = 0; i < p.nl(); ++i) if (p.d.loc[p.rank][i].attr == Overlap) { x[i] = 0; b[i] = 0; } }
    InverseOperatorResult res; if (g.coin()) sv->apply(x, b, res); else { double rr = g.pick({1e-5, 1e-9}); red = rr; sv->apply(x, b, rr, res); } bool expect = s != BiCG || k != 6; verify(c, p, x, u0, res, red, key, expect, s != Gmres && s != MinRes); if (r + 1 < rounds) red = 1e-6, sv = solver<V>(s, p.op, sp, pr, red, restart, 2000); }
  if (p.N) c.sig(str(nm, key, precName(k), p.kind));
}
template<class G, template<class, class> class F> struct Dispatch;
#define TYPES(fn, G) switch (c.rng.range(0, 4)) { case 0: fn<FieldMatrix<double, 1, 1>, G>(c, "1"); break; case 1: fn<FieldMatrix<double, 2, 2>, G>(c, "2"); break; case 2: fn<double, G>(c, "double"); break; case 3: fn<FieldMatrix<std::complex<double>, 1, 1>, G>(c, "c1"); break; default: fn<FieldMatrix<double, 3, 3>, G>(c, "3"); }
MGROUP("operators", 150, 6000) { if (c.rng.coin(0.7)) { TYPES(operators, int) } else operators<FieldMatrix<double, 2, 2>, bigunsignedint<56>>(c, "big2"); }
MGROUP("preconditioners", 140, 6000) { TYPES(preconditioners, int) }
MGROUP("krylov", 140, 6000) { if (c.rng.coin(0.8)) { TYPES(krylov, int) } else krylov<FieldMatrix<double, 2, 2>, long>(c, "long2"); }
// ---- parallel multigrid ------------------------------------------------------------------------------------------------
// the numbering of one stage of the hierarchy over all processes
struct Stage { std::vector<long> dof; std::vector<char> own; std::vector<long> gid; size_t total = 0; std::map<long, long> byGid; std::string error; };
template<class Comm> static Stage number(int P, int rank, const Comm* C, size_t n) {
  Stage s; s.own.assign(n, 1); s.gid.assign(n, -1); if (C) for (auto& p : C->indexSet()) { size_t l = p.local().local(); if (l >= n) { s.error = str("local index ", l, " of ", n); continue; } if (s.gid[l] >= 0) s.error = str("local index ", l, " twice"); long gl; if constexpr (std::is_integral_v<typename Comm::ParallelIndexSet::GlobalIndex>) gl = p.global(); else gl = long(p.global().todouble()); s.gid[l] = gl; s.own[l] = p.local().attribute() == Owner; }
  std::vector<long> mine; for (size_t l = 0; l < n; ++l) { mine.push_back(s.own[l]); mine.push_back(s.gid[l]); } auto all = gatherAll<long>(P, mine); s.dof.assign(n, -1); for (int p = 0; p < P; ++p) for (size_t k = 0; k < all[p].size(); k += 2) if (all[p][k]) { if (p == rank) s.dof[k / 2] = s.total; if (all[p][k + 1] >= 0 && !s.byGid.emplace(all[p][k + 1], s.total).second) s.error = str("global index ", all[p][k + 1], " has two owners"); ++s.total; }
  for (size_t l = 0; l < n; ++l) if (!s.own[l]) { auto it = s.byGid.find(s.gid[l]); if (it == s.byGid.end()) s.error = str("global index ", s.gid[l], " has no owner"); else s.dof[l] = it->second; } return s; }
template<class T> static std::vector<T> flat2(const std::vector<std::vector<T>>& a) { std::vector<T> r; for (auto& x : a) r.insert(r.end(), x.begin(), x.end()); return r; }
static const char* accuName(int a) { return a == Amg::noAccu ? "none" : a == Amg::atOnceAccu ? "atonce" : "successive"; }
struct Config { int maxl, target, accu, gamma, pre, post; double rate, damp; bool additive; std::string txt; };
template<class C> static C config(vh::Rng& g, Config& k, bool additive, bool noRedist) { k.target = g.pick({1, 2, 4, 8, 15, 30, 1000}); k.maxl = g.pick({1, 2, 3, 15, 15, 15}); k.accu = g.pick({int(Amg::noAccu), int(Amg::atOnceAccu), int(Amg::successiveAccu), int(Amg::successiveAccu)}); k.rate = g.pick({1.0, 1.2, 1.2, 2.0}); k.damp = g.pick({1.0, 1.6, 1.25}); k.additive = additive && g.coin(0.2); if (noRedist) k.accu = Amg::noAccu;
  C cr{Amg::Parameters(k.maxl, k.target, k.rate, k.damp, Amg::AccumulationMode(k.accu), true)}; double al, be; parameters(g, cr, k.txt, al, be); k.gamma = g.pick({1, 1, 2}); k.pre = g.range(0, 2); k.post = g.range(k.pre ? 0 : 1, 2); cr.setGamma(k.gamma); cr.setNoPreSmoothSteps(k.pre); cr.setNoPostSmoothSteps(k.post); cr.setAdditive(k.additive); cr.setDebugLevel(g.coin(0.1) ? 3 : 0);
  k.txt = str(" target=", k.target, " maxlevel=", k.maxl, " rate=", k.rate, " accumulate=", accuName(k.accu), " damp=", k.damp, " gamma=", k.gamma, " pre=", k.pre, " post=", k.post, k.additive ? " additive" : "", k.txt); return cr; }
// gathers the hierarchy, checks it and sets up the model of the cycle; returns whether the coarsest system is on one process
template<class Pr, class H> static bool hierarchy(mp::Case& c, Pr& p, H& h, mg::Cycle& m, bool& serial) {
  using Comm = typename Pr::Comm; constexpr size_t n = Pr::n; int P = p.P; size_t levels = h.levels(), maxl = h.maxlevels(); auto mat = h.matrices().finest(); auto info = h.parallelInformation().finest(); auto red = h.redistributeInformation().begin(); auto am = h.aggregatesMaps().begin(); m.lv.clear(); serial = false; std::vector<long> toModel; // stage dof -> model dof
  { auto all = gatherAll<long>(P, {long(maxl)}); for (auto& a : all) if (!c.check(a[0] == long(maxl), "maxlevels-differ")) return false; }
  for (size_t l = 0; l < maxl; ++l) { bool in = l < levels; Stage o = number<Comm>(P, p.rank, in ? &*info : nullptr, in ? mat->getmat().N() : 0); if (!c.check(o.error.empty(), "hierarchy-index-set", str("level ", l, ": ", o.error))) return false;
    auto rows = [&](const typename Pr::Mat* M, const Stage& s, const char* what, const std::vector<long>& to) { std::vector<double> t; if (M) for (auto i = M->begin(); i != M->end(); ++i) if (s.own[i.index()]) for (auto j = i->begin(); j != i->end(); ++j) { t.push_back(s.dof[i.index()]); t.push_back(s.dof[j.index()]); DM<double> D(n, n); Blk<typename Pr::Mat::block_type>::put(*j, D, 0, 0); t.insert(t.end(), D.a.begin(), D.a.end()); }
      auto all = flat2(gatherAll<double>(P, t)); auto& L = m.lv.back(); Pattern pat(L.N); double mx = 0; for (auto& r : L.a) for (auto& e : r) mx = std::max(mx, std::abs(e.second)); for (size_t k = 0; k < all.size(); k += 2 + n * n) { size_t i = to[size_t(all[k])], j = to[size_t(all[k + 1])]; c.check(pat[i].insert(j).second, str("hierarchy-entry-twice-", what), str("level ", l)); for (size_t r = 0; r < n; ++r) for (size_t q = 0; q < n; ++q) { auto it = L.a[i * n + r].find(j * n + q); double w = it == L.a[i * n + r].end() ? 0 : it->second, v = all[k + 2 + r * n + q]; if (!c.check(std::abs(v - w) <= 1e-11 * mx, str("hierarchy-entry-", what), str("level ", l, " (", i, ",", j, "): ", v, " instead of ", w))) return false; } }
      for (size_t i = 0; i < L.N; ++i) for (auto j : L.p[i]) if (!pat[i].count(j) && !c.check(false, str("hierarchy-pattern-", what), str("level ", l, " misses (", i, ",", j, ")"))) return false; return true; };
    if (l == 0) { std::vector<long> mine; for (size_t i = 0; i < p.nl(); ++i) if (p.d.loc[p.rank][i].attr == Owner) mine.push_back(p.d.loc[p.rank][i].g); toModel = flat2(gatherAll<long>(P, mine)); m.lv.push_back(mg::level(p.A)); c.check(o.total == p.N, "hierarchy-fine-size", str(o.total)); }
    else if (!c.check(o.total == m.lv.back().N, "hierarchy-coarse-size", str("level ", l, ": ", o.total, " instead of ", m.lv.back().N))) return false;
    if (o.total != toModel.size()) { c.check(false, "hierarchy-numbering", str(o.total, " ", toModel.size())); return false; } if (!p.nov && !rows(in ? &mat->getmat() : nullptr, o, "level", toModel)) return false;
    bool rd = in && red->isSetup(); auto anyRd = gatherAll<long>(P, {in ? long(rd) : -1}); bool redistributed = false; for (auto& a : anyRd) redistributed |= a[0] == 1; for (auto& a : anyRd) if (redistributed) c.check(a[0] != 0, "redistribution-differs", str("level ", l)); Stage s = o; std::vector<long> to = toModel; bool coarsest = l + 1 == maxl; int csize = 0;
    if (redistributed) { bool act = rd && mat.isRedistributed() && mat.getRedistributed().getmat().N() > 0; s = number<Comm>(P, p.rank, act ? &info.getRedistributed() : nullptr, act ? mat.getRedistributed().getmat().N() : 0); if (!c.check(s.error.empty() && s.total == o.total, "redistributed-index-set", str("level ", l, ": ", s.error, " ", s.total, " of ", o.total))) return false; to.assign(s.total, -1); for (auto& e : s.byGid) { auto it = o.byGid.find(e.first); if (!c.check(it != o.byGid.end(), "redistributed-global-index", str(e.first))) return false; to[e.second] = toModel[it->second]; } if (!p.nov && !rows(act ? &mat.getRedistributed().getmat() : nullptr, s, "redistributed", to)) return false; if (act) csize = info.getRedistributed().communicator().size(); if (act && coarsest && l + 1 == levels) c.check(info.getRedistributed().communicator().size() >= 1, "coarsest-communicator"); c.ev(); }
    else csize = in ? info->communicator().size() : 0;
    if (coarsest) { auto cs = gatherAll<long>(P, {l + 1 == levels ? csize : 0}); long mx = 0; for (auto& a : cs) mx = std::max(mx, a[0]); serial = mx == 1; break; }
    // the aggregates of the next level
    bool on = levels > l + 1; auto nmat = mat; auto ninfo = info; if (in && on) { ++nmat; ++ninfo; } Stage nx = number<Comm>(P, p.rank, on ? &*ninfo : nullptr, on ? nmat->getmat().N() : 0); if (!c.check(nx.error.empty(), "hierarchy-index-set", str("level ", l + 1, ": ", nx.error))) return false; std::vector<long> t; std::string e; if (on) { auto& a = **am; if (!c.check(a.noVertices() == s.dof.size(), "aggregates-size", str(a.noVertices(), " ", s.dof.size()))) e = "size"; else for (size_t i = 0; i < s.dof.size(); ++i) { using AM = std::decay_t<decltype(a)>; size_t x = a[i]; bool iso = x == AM::ISOLATED; if (!iso && x >= nx.dof.size()) { e = str("aggregate ", x, " of ", nx.dof.size()); break; } t.push_back(s.own[i]); t.push_back(to[s.dof[i]]); t.push_back(iso ? -1 : nx.dof[x]); if (s.own[i] && !iso && !nx.own[x]) e = str("vertex ", i, " is owned, its aggregate is not"); } } c.check(e.empty(), "aggregates", str("level ", l, ": ", e));
    auto all = flat2(gatherAll<long>(P, t)); auto& L = m.lv.back(); L.agg.assign(L.N, mg::NONE); L.nc = nx.total; std::vector<char> have(L.N, 0), used(nx.total, 0); for (size_t k = 0; k < all.size(); k += 3) if (all[k]) { have[all[k + 1]] = 1; L.agg[all[k + 1]] = all[k + 2] < 0 ? mg::NONE : size_t(all[k + 2]); if (all[k + 2] >= 0) used[all[k + 2]] = 1; }
    for (auto x : have) if (!c.check(x, "vertex-without-aggregate")) return false; for (auto x : used) c.check(x, "empty-aggregate", str("level ", l)); for (size_t k = 0; k < all.size(); k += 3) if (!all[k]) c.check(L.agg[all[k + 1]] == (all[k + 2] < 0 ? mg::NONE : size_t(all[k + 2])), "copy-in-another-aggregate", str("level ", l, " vertex ", all[k + 1], ": ", all[k + 2], " instead of ", long(L.agg[all[k + 1]])));
    mg::Level nl = L.coarse(); m.lv.push_back(std::move(nl)); toModel.resize(nx.total); for (size_t k = 0; k < toModel.size(); ++k) toModel[k] = k; if (on) { ++mat; ++info; ++red; ++am; } }
  return true; }
template<class Pr, class Op, class Sm, class Crit> static void multigrid(mp::Case& c, const char* nm, bool nov, bool exact, int forceSym = -1) {
  auto& g = c.rng; using V = typename Pr::V; using Comm = typename Pr::Comm; using A_ = Amg::AMG<Op, V, Sm, Comm>; using H = Amg::MatrixHierarchy<Op, Comm, std::allocator<V>>; Quiet q; Pr p(c, nov, Pr::n > 1 ? 50 : 90, g.pick({1.05, 1.3}), 0, false, true, forceSym); Config k; Crit cr = config<Crit>(g, k, true, nov && p.d.kind.find("ghosts") == std::string::npos); mg::Cycle m; m.s.kind = mg::Jac; m.s.it = exact ? 1 : g.pick({1, 1, 2}); m.s.w = g.pick({0.8, 1.0}); m.gamma = k.gamma; m.pre = k.pre; m.post = k.post; m.damp = k.damp; m.additive = k.additive; typename A_::SmootherArgs sa; sa.iterations = m.s.it; sa.relaxationFactor = m.s.w; c.note(str(nm, k.txt, " ", p.kind)); auto& op = static_cast<Op&>(*p.op);
  bool serial; Comm C2(MPI_COMM_WORLD, p.d.cat); fill(C2, p.d, p.rank); auto op2 = std::make_shared<Op>(p.M, C2); H h(op2, stackobject_to_shared_ptr(C2)); h.template build<NegateSet<typename Comm::OwnerSet>>(cr); if (!hierarchy(c, p, h, m, serial)) return; if (std::pow(m.gamma, m.lv.size()) > 70) { m.gamma = 1; cr.setGamma(1); }
  A_ amg(op, cr, sa, *p.C); c.check(nov || size_t(amg.maxlevels()) == m.lv.size(), "amg-levels", str(amg.maxlevels(), " instead of ", m.lv.size())); if (g.coin(0.35)) { p.revalue(g); c.add(" recalculated"); h.recalculateGalerkin(NegateSet<typename Comm::OwnerSet>()); if (!hierarchy(c, p, h, m, serial)) return; amg.recalculateHierarchy(); }
  for (int r = 0, R = g.range(1, 2); r < R; ++r) {
    if (exact && serial && g.coin(0.7)) { auto u0 = randVec<double>(g, p.N * p.n, false), bb = randVec<double>(g, p.N * p.n, false); V x = p.spread(u0, {Copy}), b = p.spread(bb, {Copy}); { auto t = b; p.C->project(t); b = t; } amg.pre(x, b); int na = g.range(1, 2); for (int a = 0; a < na; ++a) { auto dd = randVec<double>(g, p.N * p.n, false); V d = p.spread(dd), v(p.nl()); p.C->project(d); V d0 = d; v = 0; amg.apply(v, d); c.check(flatten<double>(d) == flatten<double>(d0), "cycle-changes-defect"); auto want = m(dd); std::string e = p.compareTo(v, want, 1e-8, true, true); c.check(e.empty(), k.additive ? "cycle-additive" : "cycle", str(nm, " levels ", m.lv.size(), " ", e)); } amg.post(x); }
    auto sp = createScalarProduct<V>(*p.C, p.d.cat); int s = g.pick({int(FGmres), int(FGmres), int(BiCG), int(CG)}); double red = g.pick({1e-6, 1e-9}); auto sv = solver<V>(s, stackobject_to_shared_ptr(static_cast<LinearOperator<V, V>&>(op)), sp, stackobject_to_shared_ptr(static_cast<Preconditioner<V, V>&>(amg)), red, s == FGmres ? int(p.N * p.n) + 5 : 60, 250); auto u0 = g.coin() ? randVec<double>(g, p.N * p.n, false) : std::vector<double>(p.N * p.n, 0.0); V x = p.spread(u0, nov ? std::initializer_list<int>{} : std::initializer_list<int>{Copy}), b = nov ? p.spread(p.b) : p.spread(p.b, {Copy}); if (nov) for (size_t i = 0; i < p.nl(); ++i) if (p.d.loc[p.rank][i].attr == Overlap) { x[i] = 0; b[i] = 0; }
    InverseOperatorResult res; long broke = 0; try { sv->apply(x, b, res); } catch (const SolverAbort&) { if (s == FGmres) throw; broke = 1; } auto allBroke = flat2(gatherAll<long>(p.P, {broke})); for (auto a : allBroke) if (!c.check(a == broke, "abort-differs")) return; if (broke) continue; /* the preconditioner need not be symmetric */ verify(c, p, x, u0, res, red, str(nov ? "nonoverlapping-amg-" : "amg-", solverName(s)), s == FGmres, true); if (c.failed) return; }
  c.sig(str(nm, k.txt, p.kind, "L", m.lv.size())); }
template<class B, class G, bool nov, template<class, class, class, int> class S> static void amgWith(mp::Case& c, const char* nm, bool exact, int sym = -1) { using Pr = Prob<B, G>; using Mat = typename Pr::Mat; using V = typename Pr::V; using Comm = typename Pr::Comm; using Seq = S<Mat, V, V, 1>; using Op = std::conditional_t<nov, NonoverlappingSchwarzOperator<Mat, V, V, Comm>, OverlappingSchwarzOperator<Mat, V, V, Comm>>; using Sm = std::conditional_t<nov, NonoverlappingBlockPreconditioner<Comm, Seq>, BlockPreconditioner<V, V, Comm, Seq>>; multigrid<Pr, Op, Sm, Amg::CoarsenCriterion<Amg::SymmetricCriterion<Mat, Amg::FirstDiagonal>>>(c, nm, nov, exact, sym); }
template<class B, class G> static void amgPar(mp::Case& c, const char* nm) { using Pr = Prob<B, G>; using Mat = typename Pr::Mat; using V = typename Pr::V; using Comm = typename Pr::Comm; multigrid<Pr, OverlappingSchwarzOperator<Mat, V, V, Comm>, ParSSOR<Mat, V, V, Comm>, Amg::CoarsenCriterion<Amg::UnSymmetricCriterion<Mat, Amg::FirstDiagonal>>>(c, nm, false, false); }
using D1 = FieldMatrix<double, 1, 1>; using D2 = FieldMatrix<double, 2, 2>;
MGROUP("amg-jacobi", 80, 2500) { if (c.rng.coin(0.6)) amgWith<D1, int, false, SeqJac>(c, "jac1", true); else amgWith<D2, int, false, SeqJac>(c, "jac2", true); }
MGROUP("amg-smoothers", 60, 2000) { switch (c.rng.range(0, 4)) { case 0: amgWith<D1, int, false, SeqSSOR>(c, "ssor", false); break; case 1: amgWith<D2, int, false, SeqSOR>(c, "sor", false); break; case 2: amgWith<D1, int, false, SeqILU>(c, "ilu", false); break; case 3: amgWith<D1, bigunsignedint<56>, false, SeqSSOR>(c, "ssor-big", false); break; default: amgPar<D1, int>(c, "parssor"); } }
MGROUP("amg-nonoverlapping", 40, 1500) { if (c.rng.coin()) amgWith<D1, int, true, SeqSSOR>(c, "nov-ssor", false); else amgWith<D1, int, true, SeqJac>(c, "nov-jac", false); }
