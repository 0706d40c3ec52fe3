// C21: eigenvalue routines return the requested eigenpair (residual and dense spectrum as oracle) or report failure.
#include "ref.hh"
#include <dune/istl/operators.hh>
#include <dune/istl/preconditioners.hh>
#include <dune/istl/solvers.hh>
#include <dune/istl/umfpack.hh>
#include <dune/istl/superlu.hh>
#include <dune/istl/eigenvalue/poweriteration.hh>
#include <dune/istl/eigenvalue/arpackpp.hh>
#ifndef PART
#define PART 0
#endif
using namespace Dune; using namespace ref; using vh::str;
template<int b> using MatB = BCRSMatrix<FieldMatrix<double, b, b>>;
template<int b> using VecB = BlockVector<FieldVector<double, b>>;
static DM<double> randOrth(vh::Rng& g, size_t n) {
  DM<double> Q = DM<double>::id(n);
  for (size_t k = 0; k < n + 1; ++k) { std::vector<double> v(n); double s = 0; for (auto& x : v) { x = g.real(-1, 1); s += x * x; } if (s < 1e-3) continue;
    for (size_t j = 0; j < n; ++j) { double d = 0; for (size_t i = 0; i < n; ++i) d += v[i] * Q(i, j); d *= 2 / s; for (size_t i = 0; i < n; ++i) Q(i, j) -= d * v[i]; } }
  return Q;
}
// a symmetric block matrix together with its dense form and spectrum
template<int b> struct ES { using B = FieldMatrix<double, b, b>; Sp<B> s; MatB<b> A; DM<double> D; std::vector<double> ev; double nrm = 0; std::string text; };
template<int b> static void fromDense(ES<b>& E, const DM<double>& D, const Pattern& p) {
  E.s.N = E.s.M = D.r / b; E.s.p = p; E.s.v.clear();
  for (size_t i = 0; i < E.s.N; ++i) for (size_t j : p[i]) { auto& blk = E.s.v[{i, j}]; for (int k = 0; k < b; ++k) for (int l = 0; l < b; ++l) blk[k][l] = D(i * b + k, j * b + l); }
  E.s.rebuildDense(); E.D = E.s.D; E.ev = symeig(E.D); E.nrm = 0; for (double e : E.ev) E.nrm = std::max(E.nrm, std::abs(e));
}
template<int b> static std::unique_ptr<ES<b>> sym(vh::Rng& g, size_t maxN, bool spd = false) {
  auto E = std::make_unique<ES<b>>(); size_t N = g.range(b == 1 ? 2 : 1, std::max<long>(2, maxN / b)), n = N * b; long k = g.range(0, 4); static const char* nm[] = {"spectrum", "geometric", "sparse", "diag", "laplace"}; Pattern p; std::string kind = nm[k]; DM<double> D(n, n);
  double scale = g.coin(0.2) ? std::pow(10.0, g.range(-3, 3)) : 1;
  if (k <= 1) { std::vector<double> l(n); double r = g.real(0.3, 0.9); for (size_t i = 0; i < n; ++i) l[i] = k == 0 ? g.real(spd ? 0.1 : -3, 3) : (g.coin() || spd ? 1 : -1) * std::max(std::pow(r, double(i)), 1e-4) * 2;
    auto Q = randOrth(g, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { double s = 0; for (size_t q = 0; q < n; ++q) s += Q(i, q) * l[q] * Q(j, q); D(i, j) = D(j, i) = s; } p.assign(N, {}); for (auto& r2 : p) for (size_t j = 0; j < N; ++j) r2.insert(j); }
  else if (k == 2) { std::string sk; p = symPattern(g, N, &sk); kind += sk; for (size_t i = 0; i < N; ++i) for (size_t j : p[i]) if (j <= i) for (int x = 0; x < b; ++x) for (int y = 0; y < b; ++y) if (i != j || y <= x) D(i * b + x, j * b + y) = D(j * b + y, i * b + x) = g.real(-1, 1);
    if (spd) for (size_t i = 0; i < n; ++i) { double t = g.real(0.1, 1); for (size_t j = 0; j < n; ++j) if (j != i) t += std::abs(D(i, j)); D(i, i) = t; } }
  else if (k == 3) { p.assign(N, {}); for (size_t i = 0; i < N; ++i) p[i].insert(i); for (size_t i = 0; i < n; ++i) D(i, i) = (g.coin() || spd ? 1 : -1) * g.real(0.1, 4); }
  else { p.assign(N, {}); for (size_t i = 0; i < N; ++i) for (long j = long(i) - 1; j <= long(i) + 1; ++j) if (j >= 0 && j < long(N)) p[i].insert(j); for (size_t i = 0; i < n; ++i) { D(i, i) = 2; if (i + 1 < n) D(i, i + 1) = D(i + 1, i) = -1; } }
  for (auto& v : D.a) v *= scale;
  fromDense<b>(*E, D, p); int mode = build(E->A, E->s, g); E->s.kind = kind; E->text = str(kind, " n=", n, " b=", b, " ", modeName(mode), " scale=", scale); return E;
}
// pattern diag for operators: every matrix stores its diagonal
static std::vector<double> startVec(vh::Rng& g, size_t n) { std::vector<double> v(n); for (auto& x : v) x = (g.coin() ? 1 : -1) * g.real(0.3, 1); double s = g.coin(0.3) ? std::pow(10.0, g.range(-6, 6)) : 1; for (auto& x : v) x *= s; return v; }
static size_t nearest(const std::vector<double>& ev, double t) { size_t k = 0; for (size_t i = 0; i < ev.size(); ++i) if (std::abs(ev[i] - t) < std::abs(ev[k] - t)) k = i; return k; }
// distance ratio of the closest to the second closest eigenvalue (multiple eigenvalues count once)
static double ratio(const std::vector<double>& ev, double t, double nrm) { double a = std::abs(ev[nearest(ev, t)] - t), v = ev[nearest(ev, t)], s = 1e300; for (double e : ev) if (std::abs(e - v) > 1e-9 * nrm) s = std::min(s, std::abs(e - t)); return s == 1e300 ? 0 : a / s; }
static double ratioMax(const std::vector<double>& ev, double nrm) { double m = 0, v = 0; for (double e : ev) if (std::abs(e) > m) { m = std::abs(e); v = e; } double s = 0; for (double e : ev) if (std::abs(e - v) > 1e-9 * nrm) s = std::max(s, std::abs(e)); return m == 0 ? 1 : s / m; }
template<class V> static bool pairOk(vh::Case& c, const std::string& key, const DM<double>& D, double nrm, const V& xv, double lambda, double eps) {
  auto x = flatten<double>(xv); double nx = norm2(x); bool ok = c.check(std::abs(nx - 1) <= 1e-8, key + "/not-normalised", str("norm ", nx, " lambda ", lambda));
  auto r = D.mul(x); double ray = 0; for (size_t i = 0; i < x.size(); ++i) ray += r[i] * x[i]; for (size_t i = 0; i < x.size(); ++i) r[i] -= lambda * x[i];
  double rn = norm2(r), floor_ = 1e-13 * nrm * double(x.size());
  return c.check(rn <= eps * (1 + 1e-6) + floor_, key + "/residual", str("|Ax-lx|=", rn, " requested ", eps, " lambda ", lambda, " rayleigh ", ray)) && ok;
}
static double steps(double rat, double nrm, double eps) { return rat <= 0 ? 3 : std::log(1e8 * nrm / eps) / -std::log(rat) + 5; }
template<class F> static int attempt(vh::Case& c, const std::string& key, F&& f) { // 0 success, 1 reported failure
  try { f(); return 0; } catch (const Dune::Exception&) { return 1; } catch (const std::exception& e) { c.fail(key + "/foreign-exception", e.what()); return 1; } }
#if PART == 0
template<int b> static void power(vh::Case& c) {
  auto& g = c.rng; auto E = sym<b>(g, c.thorough ? 24 : 14); size_t n = E->D.r; bool nonsym = g.coin(0.25); auto ev = E->ev; double nrm = E->nrm, cv = 1;
  if (nonsym) { DM<double> D = E->D; std::vector<double> d(n); for (auto& x : d) x = g.real(0.5, 1.5); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) D(i, j) *= d[i] / d[j]; auto e = E->ev; fromDense<b>(*E, D, E->s.p); E->ev = e; setValues(E->A, E->s); cv = 3; double f = 0; for (auto& v : D.a) f += v * v; E->nrm = nrm = std::sqrt(f); }
  if (nrm == 0) return; double eps = nrm * std::pow(10.0, g.real(-11, -1)), rat = ratioMax(ev, nrm); unsigned maxit = g.pick({1, 5, 50, 1000, 1000, 3000}); std::string key = "power";
  using PIA = PowerIteration_Algorithms<MatB<b>, VecB<b>>; PIA pia(E->A, maxit); VecB<b> x(n / b); auto x0 = startVec(g, n); assign(x, x0); double lambda = g.pick({0.0, 7.0, std::nan("")});
  c.note(str(key, " ", E->text, " eps=", eps, " maxit=", maxit, " ratio=", rat, nonsym ? " nonsym" : ""));
  try { pia.getIterationCount(); c.fail(key + "/count-before-use", "no exception"); } catch (const ISTLError&) { c.ev(); }
  int fault = g.coin(0.1) ? g.range(1, 2) : 0; if (fault == 1) x = 0.0; if (fault == 2) x[0][0] = std::nan("");
  int r = attempt(c, key, [&] { pia.applyPowerIteration(eps, x, lambda); });
  if (fault) { c.check(r == 1, key + "/success-on-invalid-start", str("fault ", fault, " lambda ", lambda)); c.sig(str("fault", fault)); return; }
  if (r == 1) { c.check(steps(rat, nrm, eps) * (nonsym ? 1.5 : 1) > maxit, key + "/spurious-failure", str("predicted ", steps(rat, nrm, eps)));
    PIA more(E->A, 20000); if (steps(rat, nrm, eps) < 10000) { if (attempt(c, key, [&] { more.applyPowerIteration(eps, x, lambda); })) c.fail(key + "/continued-failure", ""); else { pairOk(c, key + "/continued", E->D, nrm, x, lambda, eps); } } c.sig(str("fail/", E->s.kind, n, "/", maxit)); return; }
  unsigned it = pia.getIterationCount(); c.check(it >= 1 && it <= maxit, key + "/count", str(it)); pairOk(c, key, E->D, nrm, x, lambda, eps);
  if (eps <= 1e-6 * nrm && rat < 0.999) { double dom = 0; for (double e : ev) if (std::abs(e) > std::abs(dom)) dom = e; c.check(std::abs(lambda - dom) <= cv * eps + 1e-12 * nrm, key + "/not-dominant", str("lambda ", lambda, " dominant ", dom)); }
  auto er = compare(E->A, E->s); c.check(er.empty(), key + "/matrix-modified", er);
  c.sig(str(E->s.kind, n, "/", b, "/", it, "/", maxit, nonsym));
}
VGROUP("power1", 700, 12000) { power<1>(c); }
VGROUP("power2", 300, 6000) { power<2>(c); }
VGROUP("power3", 200, 4000) { power<3>(c); }
#endif
#if PART == 1
// a history of algorithm calls on one algorithm object and one solver
template<int b, class Solver, bool direct> struct Hist {
  using PIA = PowerIteration_Algorithms<MatB<b>, VecB<b>>; using V = VecB<b>; using Op = typename PIA::IterationOperator;
  vh::Case& c; std::string tn; ES<b>& E; PIA& pia; Solver& solver; bool exact; unsigned maxit; bool haveMatrix;
  void checkOperators(const std::string& key, bool knowShift, double gamma) {
    size_t n = E.D.r; auto& g = c.rng; auto v = randVec<double>(g, n, false), w = randVec<double>(g, n, false); V x(n / b), y(n / b), z(n / b); assign(x, v); assign(y, w); assign(z, w); Op& op = pia.getIterationOperator(); op.apply(x, y); double al = g.real(-2, 2); op.applyscaleadd(al, x, z);
    auto yy = flatten<double>(y), zz = flatten<double>(z); for (size_t i = 0; i < n; ++i) c.check(std::abs(zz[i] - w[i] - al * yy[i]) <= 1e-12 * (1 + E.nrm + std::abs(gamma)) * n, key + "/applyscaleadd");
    c.check(op.category() == SolverCategory::sequential, key + "/category");
    if (knowShift) { auto r = E.D.mul(v); double e = 0; for (size_t i = 0; i < n; ++i) e = std::max(e, std::abs(r[i] - gamma * v[i] - yy[i])); c.check(e <= 1e-13 * n * (E.nrm + std::abs(gamma)), key + "/iteration-operator", str("difference ", e, " shift ", gamma)); }
    if (haveMatrix) { const auto& M = pia.getIterationMatrix(); V m(n / b); M.mv(x, m); auto mm = flatten<double>(m); double e = maxdiff(mm, yy), mu = 0; for (size_t i = 0; i < n; ++i) mu = std::max(mu, std::abs(yy[i])); c.check(e <= 1e-12 * n * (E.nrm + std::abs(gamma) + mu), key + "/iteration-matrix", str("matrix and operator differ by ", e)); }
    c.check(compare(E.A, E.s).empty(), key + "/matrix-modified");
  }
  bool one(std::string& tr) {
    auto& g = c.rng; size_t n = E.D.r; double nrm = E.nrm; double eps = nrm * std::pow(10.0, g.real(exact ? -9 : -6, -1)); V x(n / b); auto x0 = startVec(g, n); assign(x, x0); double lambda = g.pick({0.0, 3.0, std::nan("")}); int alg = g.range(0, 3); bool crime = !exact || g.coin(); int fault = g.coin(0.04) ? g.range(1, 2) : 0;
    if (fault == 1) x = 0.0; if (fault == 2) x[n / b - 1][b - 1] = std::nan("");
    std::string key; int r; double gamma = 0;
    auto res = [&](const std::string& k) { return pairOk(c, k, E.D, nrm, x, lambda, eps); };
    if (alg <= 1) {
      key = alg ? "shifted" : "inverse"; if (alg) { for (int t = 0; t < 50; ++t) { gamma = g.coin(0.7) ? g.pick(E.ev) + nrm * g.real(-0.2, 0.2) : g.real(-1.5, 1.5) * nrm; if (std::abs(E.ev[nearest(E.ev, gamma)] - gamma) > 1e-4 * nrm) break; } if (std::abs(E.ev[nearest(E.ev, gamma)] - gamma) <= 1e-4 * nrm) return false; }
      else if (std::abs(E.ev[nearest(E.ev, 0)]) <= 1e-5 * nrm) return false;
      key = tn + "/" + key + (crime ? "-safe" : ""); tr += str(" ", alg ? "shift" : "inv", crime, fault); c.note(str(tn, " ", E.text, tr, " gamma=", gamma, " eps=", eps, " maxit=", maxit));
      r = attempt(c, key, [&] { if (alg) { if (crime) pia.template applyInverseIteration<Solver, true>(gamma, eps, solver, x, lambda); else pia.applyInverseIteration(gamma, eps, solver, x, lambda); } else { if (crime) pia.template applyInverseIteration<Solver, true>(eps, solver, x, lambda); else pia.applyInverseIteration(eps, solver, x, lambda); } });
      if (fault) { c.check(r == 1, key + "/success-on-invalid-start", str("lambda ", lambda)); return false; }
      double rat = ratio(E.ev, gamma, nrm); checkOperators(key, true, gamma);
      if (r) { if (exact) c.check(steps(rat, nrm, eps) > maxit, key + "/spurious-failure", str("predicted ", steps(rat, nrm, eps))); return true; }
      res(key); if (exact && eps <= 1e-6 * nrm && rat < 0.99) { double want = E.ev[nearest(E.ev, gamma)]; c.check(std::abs(lambda - want) <= eps + 1e-10 * nrm, key + "/not-nearest", str("lambda ", lambda, " nearest ", want)); }
    } else if (alg == 2) {
      bool near = g.coin(); size_t t = g.range(0, n - 1); lambda = near ? E.ev[t] + nrm * 1e-3 * g.pick({-1.0, 1.0}) * g.real(0.1, 1) : g.real(-1.2, 1.2) * nrm; if (std::abs(E.ev[nearest(E.ev, lambda)] - lambda) < 1e-6 * nrm) return false;
      key = tn + "/rqi" + (crime ? "-safe" : ""); tr += str(" rqi", crime, near, fault); c.note(str(tn, " ", E.text, tr, " lambda0=", lambda, " eps=", eps, " maxit=", maxit)); if (g.coin(0.03) && exact) { lambda = std::nan(""); fault = 3; }
      r = attempt(c, key, [&] { if (crime) pia.template applyRayleighQuotientIteration<Solver, true>(eps, solver, x, lambda); else pia.applyRayleighQuotientIteration(eps, solver, x, lambda); });
      if (fault) { c.check(r == 1, key + "/success-on-invalid-start", str("lambda ", lambda)); return false; }
      if (!r || std::isfinite(lambda)) checkOperators(key, false, 0);
      // the Rayleigh quotient may hit an eigenvalue exactly: a singular system, reported as a failure
      if (r) { if (exact && std::isfinite(lambda)) c.check(maxit < 100, key + "/spurious-failure"); return true; } res(key);
    } else {
      // interval with known content
      double eta; long in; bool clear = false; for (int t = 0; t < 60 && !clear; ++t) { gamma = g.coin(0.7) ? g.pick(E.ev) + nrm * g.real(-0.05, 0.05) : g.real(-1.3, 1.3) * nrm; eta = nrm * std::pow(10.0, g.real(-3, -0.3)); clear = std::abs(E.ev[nearest(E.ev, gamma)] - gamma) > 1e-4 * nrm; in = 0; for (double e : E.ev) { double d = std::abs(e - gamma); if (d > 0.95 * eta && d < 1.05 * eta) clear = false; if (d < eta) ++in; } } if (!clear) return false;
      double delta = g.pick({1e-2, 1e-4, 1e-8}); size_t m = g.range(0, 12); eps = std::min(eps, eta * 1e-3); bool extrnl = g.coin(); key = tn + "/tlime" + (crime ? "-safe" : ""); tr += str(" tlime", crime, in, fault); c.note(str(tn, " ", E.text, tr, " gamma=", gamma, " eta=", eta, " in=", in, " delta=", delta, " m=", m, " eps=", eps, " maxit=", maxit));
      r = attempt(c, key, [&] { if (crime) pia.template applyTLIMEIteration<Solver, true>(gamma, eta, eps, solver, delta, m, extrnl, x, lambda); else pia.applyTLIMEIteration(gamma, eta, eps, solver, delta, m, extrnl, x, lambda); });
      if (fault) { c.check(r == 1, key + "/success-on-invalid-start", str("lambda ", lambda)); return false; }
      if (!r || std::isfinite(lambda)) checkOperators(key, false, 0);
      if (r) { if (exact && std::isfinite(lambda)) { // II and RQI may alternate for ever when an eigenvalue lies close outside of J; failing to converge is reported then
          bool isolated = in == 0; if (in == 1) { isolated = true; for (double e : E.ev) if (double d = std::abs(e - gamma); d >= eta && d < 3 * eta) isolated = false; }
          c.check(!isolated || maxit < 3000 || steps(ratio(E.ev, gamma, nrm), nrm, eps) > maxit, key + "/spurious-failure", str("in ", in)); } return true; } res(key);
      double d = std::abs(lambda - gamma);
      if (extrnl) c.check(d >= eta - 2 * eps, key + "/claims-empty-but-returns-inside", str("lambda ", lambda)); else { c.check(in > 0, key + "/claims-content-of-empty-interval"); c.check(d < eta + 2 * eps, key + "/outside-interval", str("lambda ", lambda)); }
      if (exact) { // a second run may not depend on what was in the output variables
        MatB<b> A2(E.A); typename Hist::PIA p2(A2, maxit); VecB<b> x2(n / b); assign(x2, x0); double l2 = 12.5 * nrm; bool e2 = !extrnl; if constexpr (direct) { Solver s2(p2.getIterationMatrix()); V xa(n / b); assign(xa, x0); double la = -1; bool ea = extrnl;
          auto go = [&](auto& p, auto& s, V& X, double& L, bool& e) { return attempt(c, key, [&] { if (crime) p.template applyTLIMEIteration<Solver, true>(gamma, eta, eps, s, delta, m, e, X, L); else p.applyTLIMEIteration(gamma, eta, eps, s, delta, m, e, X, L); }); };
          typename Hist::PIA p3(A2, maxit); Solver s3(p3.getIterationMatrix()); l2 = E.ev[nearest(E.ev, gamma)] - 0.0; int ra = go(p2, s2, x2, l2, e2), rb = go(p3, s3, xa, la, ea); c.check(ra == rb && (ra || (l2 == la && e2 == ea && p2.getIterationCount() == p3.getIterationCount() && flatten<double>(x2) == flatten<double>(xa))), key + "/depends-on-output-argument", str("lambda ", l2, " / ", la, " extrnl ", e2, ea)); } }
    }
    if (!r) { unsigned it = pia.getIterationCount(); c.check(it >= 1 && it <= maxit, key + "/count", str(it)); tr += str(":", it); }
    return true;
  }
  void run(int k) { std::string tr; for (int i = 0; i < k; ++i) one(tr); c.sig(str(tn, "/", E.s.kind, E.D.r, "/", b, tr)); }
};
template<int b, class Solver> static void directHist(vh::Case& c, const std::string& tn) {
  auto& g = c.rng; auto E = sym<b>(g, c.thorough ? 20 : 12); if (E->nrm == 0 || std::abs(E->ev[nearest(E->ev, 0)]) <= 1e-5 * E->nrm) return; unsigned maxit = g.pick({3, 1000, 1000, 3000}); using H = Hist<b, Solver, true>;
  typename H::PIA pia(E->A, maxit); Solver s(pia.getIterationMatrix()); H h{c, tn, *E, pia, s, true, maxit, true}; h.run(g.range(1, 4));
}
// operator-based solver first, the matrix is asked for when a shift is active, then a direct solver takes over
template<int b> static void lateMatrix(vh::Case& c) {
  auto& g = c.rng; auto E = sym<b>(g, 10); size_t n = E->D.r; if (E->nrm == 0) return; using PIA = PowerIteration_Algorithms<MatB<b>, VecB<b>>; using V = VecB<b>; PIA pia(E->A, 1000);
  double gamma = 0; bool ok = false; for (int t = 0; t < 50 && !ok; ++t) { gamma = E->nrm * g.real(-1.3, 1.3); ok = std::abs(E->ev[nearest(E->ev, gamma)] - gamma) > 1e-2 * E->nrm && ratio(E->ev, gamma, E->nrm) < 0.9; } if (!ok) return;
  c.note(str("late-matrix ", E->text, " gamma=", gamma)); Richardson<V, V> prec(1.0); RestartedGMResSolver<V> gm(pia.getIterationOperator(), prec, 1e-12, int(n) + 2, 200, 0); V x(n / b); assign(x, startVec(g, n)); double l = 0, eps = 1e-7 * E->nrm;
  if (attempt(c, "late", [&] { pia.template applyInverseIteration<decltype(gm), true>(gamma, eps, gm, x, l); })) return;
  const auto& M = pia.getIterationMatrix(); auto D = E->D; for (size_t i = 0; i < n; ++i) D(i, i) -= gamma; double e = 0; V v(n / b), w(n / b); auto v0 = randVec<double>(g, n, false); assign(v, v0); M.mv(v, w); auto r = D.mul(v0); auto ww = flatten<double>(w); e = maxdiff(r, ww);
  c.check(e <= 1e-12 * n * (E->nrm + std::abs(gamma)), "late-matrix/iteration-matrix", str("getIterationMatrix() is not the matrix minus the current shift, difference ", e));
  UMFPack<MatB<b>> u(M); assign(x, startVec(g, n)); if (!attempt(c, "late", [&] { pia.applyInverseIteration(gamma, eps, u, x, l); })) { pairOk(c, "late-matrix", E->D, E->nrm, x, l, eps); double want = E->ev[nearest(E->ev, gamma)]; c.check(std::abs(l - want) <= eps + 1e-10 * E->nrm, "late-matrix/not-nearest", str("lambda ", l, " nearest ", want)); } else c.fail("late-matrix/failure", "");
  c.sig(str("late/", E->s.kind, n, "/", b));
}
template<int b, int kind> static void iterHist(vh::Case& c) {
  auto& g = c.rng; auto E = sym<b>(g, 10); size_t n = E->D.r; if (E->nrm == 0 || std::abs(E->ev[nearest(E->ev, 0)]) <= 1e-3 * E->nrm) return; using V = VecB<b>; unsigned maxit = g.pick({3, 300}); bool exact = kind == 0;
  using S = std::conditional_t<kind == 0, RestartedGMResSolver<V>, std::conditional_t<kind == 1, RestartedGMResSolver<V>, MINRESSolver<V>>>; using H = Hist<b, S, false>; typename H::PIA pia(E->A, maxit); bool mat = g.coin(); if (mat) pia.getIterationMatrix();
  Richardson<V, V> prec(1.0); std::unique_ptr<S> s; std::string tn;
  if constexpr (kind <= 1) { s = std::make_unique<S>(pia.getIterationOperator(), prec, kind == 0 ? 1e-13 : g.pick({0.3, 1e-1, 1e-3}), int(n) + 2, kind == 0 ? 400 : 4, 0); tn = kind ? "gmres-inexact" : "gmres"; exact = false; } else { s = std::make_unique<S>(pia.getIterationOperator(), prec, g.pick({0.3, 1e-2}), 5, 0); tn = "minres-inexact"; }
  H h{c, tn, *E, pia, *s, exact, maxit, mat}; h.run(g.range(1, 3));
}
VGROUP("umfpack1", 350, 6000) { directHist<1, UMFPack<MatB<1>>>(c, "umfpack"); }
VGROUP("umfpack2", 200, 4000) { directHist<2, UMFPack<MatB<2>>>(c, "umfpack"); }
VGROUP("umfpack3", 100, 2000) { directHist<3, UMFPack<MatB<3>>>(c, "umfpack"); }
VGROUP("superlu1", 200, 3000) { directHist<1, SuperLU<MatB<1>>>(c, "superlu"); }
VGROUP("superlu2", 100, 2000) { directHist<2, SuperLU<MatB<2>>>(c, "superlu"); }
VGROUP("gmres", 100, 2000) { if (c.rng.coin()) iterHist<1, 0>(c); else iterHist<2, 0>(c); }
VGROUP("gmres-inexact", 100, 2000) { if (c.rng.coin()) iterHist<1, 1>(c); else iterHist<2, 1>(c); }
VGROUP("minres-inexact", 100, 2000) { if (c.rng.coin()) iterHist<1, 2>(c); else iterHist<3, 2>(c); }
VGROUP("late-matrix", 200, 3000) { if (c.rng.coin()) lateMatrix<1>(c); else lateMatrix<2>(c); }
#endif
#if PART == 2
template<int b> static void arSym(vh::Case& c) {
  auto& g = c.rng; auto E = sym<b>(g, c.thorough ? 40 : 26, g.coin(0.4)); size_t n = E->D.r; if (E->nrm == 0) return; double tol = g.pick({0.0, 1e-10, 1e-6, 1e-3}); unsigned maxit = g.pick({1, 100000, 100000, 100000});
  using Ar = ArPackPlusPlus_Algorithms<MatB<b>, VecB<b>>; Ar ar(E->A, maxit); VecB<b> x(n / b); x = 5.0; double l = std::nan(""); int what = g.range(0, 2); std::string key = str("sym/", what == 0 ? "max" : what == 1 ? "min" : "cond"); c.note(str(key, " ", E->text, " tol=", tol, " maxit=", maxit));
  double big = 0, small = 1e300; for (double e : E->ev) { big = std::max(big, std::abs(e)); small = std::min(small, std::abs(e)); }
  try { ar.getIterationCount(); c.fail(key + "/count-before-use", "no exception"); } catch (const ISTLError&) { c.ev(); }
  int r; try { if (what == 0) ar.computeSymMaxMagnitude(tol, x, l); else if (what == 1) ar.computeSymMinMagnitude(tol, x, l); else ar.computeSymCond2(tol, l); r = 0; } catch (...) { r = 1; }
  // the Krylov space is the whole space for n <= 20: nothing may fail; beyond, interior eigenvalues need not converge
  size_t need = what == 2 ? 3 : 2; bool full = n <= 20 && n >= need; double rat = what ? ratio(E->ev, 0, E->nrm) : ratioMax(E->ev, E->nrm);
  if (r) { c.check(!(full && maxit > 1), key + "/spurious-failure"); c.sig(str("fail", what, n)); return; }
  c.check(ar.getIterationCount() >= 1, key + "/count"); c.check(compare(E->A, E->s).empty(), key + "/matrix-modified");
  bool sure = full || (what == 0 && rat < 0.99); double want = what == 0 ? E->ev[big == std::abs(E->ev[0]) ? 0 : n - 1] : E->ev[nearest(E->ev, 0)]; double err = std::max(tol, 1e-11);
  if (what < 2) { double res = std::max(tol * std::abs(l), 1e-11 * E->nrm); pairOk(c, key, E->D, E->nrm, x, l, res * 2); if (sure) c.check(std::abs(std::abs(l) - std::abs(want)) <= 2 * res, key + "/wrong-eigenvalue", str("lambda ", l, " wanted ", want)); }
  else if (sure && small > 1e-6 * big) c.check(std::abs(l - big / small) <= (4 * err + 1e-11 * big / small) * big / small, key + "/wrong-condition", str("got ", l, " expected ", big / small));
  c.sig(str(what, "/", E->s.kind, n, "/", b, "/", tol, "/", ar.getIterationCount()));
}
template<int R, int C> static void arNon(vh::Case& c) {
  using B = FieldMatrix<double, R, C>; using Mat = BCRSMatrix<B>; using V = BlockVector<FieldVector<double, C>>; auto& g = c.rng; size_t N, M; long shape = g.range(0, 3); long mx = c.thorough ? 14 : 9;
  M = g.range(1, mx); N = shape == 0 ? g.range(1, mx) : (M * C + R - 1) / R + (shape == 1 ? 0 : g.range(0, 10)); std::string kind; Pattern p = randPattern(g, N, M, true, &kind); auto s = Sp<B>::make(g, N, M, p, [](vh::Rng& r) { return realVal<double>(r); });
  for (size_t i = 0; i < std::min(s.D.r, s.D.c); ++i) if (auto it = s.v.find({i / R, i / C}); it != s.v.end()) it->second[i % R][i % C] += g.pick({0.0, 1.0, 2.0}); s.rebuildDense(); Mat A; int mode = build(A, s, g);
  DM<double> D = s.D; size_t nr = D.r, nc = D.c; auto ev = symeig(D.T().mul(D)); double big = std::sqrt(std::max(0.0, ev.back())), small = std::sqrt(std::max(0.0, ev.front())); if (big == 0) return;
  double tol = g.pick({0.0, 1e-10, 1e-6, 1e-3}); unsigned maxit = g.pick({1, 100000, 100000, 100000}); int what = g.range(0, 2); std::string key = str("nonsym/", what == 0 ? "max" : what == 1 ? "min" : "cond"); c.note(str(key, " ", nr, "x", nc, " blocks ", R, "x", C, " ", kind, " ", modeName(mode), " tol=", tol, " maxit=", maxit));
  using Ar = ArPackPlusPlus_Algorithms<Mat, V>; Ar ar(A, maxit); V x(M); x = 5.0; double l = std::nan(""); int r; std::string msg;
  try { if (what == 0) ar.computeNonSymMax(tol, x, l); else if (what == 1) ar.computeNonSymMin(tol, x, l); else ar.computeNonSymCond2(tol, l); r = 0; } catch (const std::exception& e) { r = 1; msg = e.what(); } catch (...) { r = 2; }
  size_t need = what == 2 ? 3 : 2; bool full = nc <= 20 && nc >= need && nr >= nc; double rat = what ? 1 : (ev.size() > 1 ? ev[ev.size() - 2] / ev.back() : 0);
  if (nr < nc) { c.check(r == 1, key + "/wide-not-rejected", str("result ", l)); c.sig(str("wide", nr, "x", nc)); return; }
  if (r) { c.check(!(full && maxit > 1), key + "/spurious-failure", msg); c.sig(str("fail", what, nr, "x", nc)); return; }
  bool sure = full || (what == 0 && rat < 0.98); double fl = 1e-11 * big * big; // accuracy of eigenvalues of A^T A
  auto er = compare(A, s); c.check(er.empty(), key + "/matrix-modified", er);
  if (what < 2) { double lam = l * l, res = std::max(tol * lam, fl); if (what == 1 && !(l == l) && small < 1e-5 * big) return; pairOk(c, key, D.T().mul(D), big * big, x, lam, 2 * res + fl); double want = what == 0 ? big : small; if (sure) c.check(std::abs(lam - want * want) <= 2 * res + fl, key + "/wrong-singular-value", str("sigma ", l, " wanted ", want)); }
  else if (sure && small > 1e-3 * big) { double k = big / small; c.check(std::abs(l - k) <= (4 * std::max(tol, 1e-11) + 1e-10 * k * k) * k, key + "/wrong-condition", str("got ", l, " expected ", k)); }
  c.sig(str(what, "/", kind, nr, "x", nc, "/", R, C, "/", tol));
}
VGROUP("arpack-sym1", 500, 8000) { arSym<1>(c); }
VGROUP("arpack-sym2", 250, 4000) { arSym<2>(c); }
VGROUP("arpack-sym3", 150, 3000) { arSym<3>(c); }
VGROUP("arpack-nonsym1", 400, 6000) { arNon<1, 1>(c); }
VGROUP("arpack-nonsym2", 200, 3000) { arNon<2, 2>(c); }
VGROUP("arpack-nonsym32", 200, 3000) { arNon<3, 2>(c); }
VGROUP("arpack-nonsym21", 200, 3000) { arNon<2, 1>(c); }
VGROUP("arpack-nonsym13", 200, 3000) { arNon<1, 3>(c); }
#endif
