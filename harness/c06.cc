// C06: convergence claims are true, the reported reduction agrees, limits and one-off reductions are honoured.
#include "solverspy.hh"
using namespace sp;
using Dune::BlockVector; using Dune::FieldVector;

template<class X, class K> void honest(vh::Case& c, int s) {
  constexpr int bs = [] { if constexpr (Dune::IsNumber<typename X::block_type>::value) return 1; else return int(X::block_type::dimension); }();
  auto& g = c.rng; size_t nb = g.coin(0.1) ? 1 : g.range(1, 24 / bs), n = nb * bs;
  bool weighted = g.coin(0.4); bool idp = g.coin(0.2);
  auto p = problem<K>(g, s, n, weighted, 60, idp);
  Rig<X, K> rig; auto& L = rig.L; L.A = p.A; L.W = p.W; L.D = p.D;
  bool flexible = (s == FGMRes || s == GPCG || s == RFCG || s == CFCG) && g.coin(0.4);
  if (flexible) { double amp = g.real(0, 0.3); std::uint64_t sd = g.next(); L.flex = [=, W = p.W](const std::vector<K>& d, long k) { auto z = W.mul(d); vh::Rng r(sd + k); double f = 1 + amp * r.real(-1, 1); auto nz = norm2(z); for (auto& e : z) e = K(f) * e + K(amp * 0.3 * nz / std::sqrt(double(z.size()))) * realVal<K>(r); return z; }; }
  bool modifies = g.coin(0.15);           // pre() may scale / restrict the system
  if (modifies) { double f = g.pick({0.5, 2.0}); L.onPre = [f](std::vector<K>& x, std::vector<K>& b) { for (size_t i = 0; i < b.size(); i += 2) b[i] *= K(f); (void)x; }; }
  double red = std::pow(10, -g.real(0.3, 9)), red2 = std::pow(10, -g.real(0.3, 9)); int maxit = g.pick({0, 1, 2, 3, 4, 5, 7, 10, 15, 30, 60, 200}), restart = g.coin(0.3) ? (s == RFCG || s == CFCG ? g.range(0, 2) : g.range(1, 2)) : g.range(2, 30);
  int ctor = weighted ? g.range(0, 1) : g.range(0, 2); bool oneOff = g.coin(0.4); int verb = g.coin(0.1) ? 2 : 0;
  int start = g.range(0, 9); // exact initial guesses and zero data
  if (start == 0) p.x0 = p.x; else if (start == 1) { std::fill(p.b.begin(), p.b.end(), K(0)); std::fill(p.x0.begin(), p.x0.end(), K(0)); } else if (start == 2) { std::fill(p.x0.begin(), p.x0.end(), K(0)); std::fill(p.b.begin(), p.b.end(), K(0)); p.b[g.range(0, n - 1)] = K(1); }
  c.note(str(p.text, " red=", red, " maxit=", maxit, " restart=", restart, " ctor=", ctor, oneOff ? " one-off" : "", flexible ? " flexible" : "", modifies ? " pre-modifies" : "", " start=", start));
  auto sv = rig.solver(s, red, restart, maxit, verb, ctor);
  int calls = g.range(1, 3);
  for (int call = 0; call < calls; ++call) {
    bool off = oneOff && call != 1; double R = off ? red2 : red;
    X x(nb), b(nb); assign(x, p.x0); assign(b, p.b); L.reset();
    Dune::InverseOperatorResult res; if (g.coin()) { res.converged = true; res.iterations = 12345; res.reduction = 1e-12; }
    try { if (off) sv->apply(x, b, R, res); else sv->apply(x, b, res); }
    catch (const Dune::SolverAbort& e) { c.fail(str(sname(s), "/abort"), str("call ", call, ": ", e.what())); return; }
    auto xf = flatten<K>(x), bf = flatten<K>(b); auto r0 = L.residual(p.x0), r1 = L.residual(xf);
    // residual in the norm in which the method measures it
    auto meas = [&](const std::vector<K>& r) { if (s == GMRes) return L.norm(L.W.mul(r)); if (s == MINRES) return std::sqrt(std::max(0.0, dabs(L.dot(r, L.W.mul(r))))); return L.norm(r); };
    double d0 = meas(r0), d1 = meas(r1), An = 0, Wn = 1; for (auto& e : L.A.a) An = std::max(An, dabs(e)); if (s == GMRes || s == MINRES) { Wn = 0; for (auto& e : L.W.a) Wn = std::max(Wn, dabs(e)); if (s == MINRES) Wn = std::sqrt(Wn); }
    double eps = 3e-13 * n * (L.maxNorm * (s == GMRes || s == MINRES ? 1 : 1) + d0 + Wn * (An * (maxabs(xf) + maxabs(p.x0)) + maxabs(L.b0)));
    if (!c.check(finite(xf), str(sname(s), "/nonfinite"), "returned iterate is not finite")) return;
    bool tiny = d1 <= 1e-30 * 1.01 + eps;
    if (res.converged) c.check(d1 <= R * d0 * (1 + 1e-5) + eps || tiny, str(sname(s), "/false-claim"), str("call ", call, " claims convergence: defect ", d1, " initial ", d0, " requested ", R, " tol ", eps, " it ", res.iterations));
    else c.check(d1 >= R * d0 * (1 - 1e-5) - eps, str(sname(s), "/missed"), str("call ", call, " reports non-convergence: defect ", d1, " initial ", d0, " requested ", R, " it ", res.iterations));
    if (!res.converged) c.check(res.iterations == maxit, str(sname(s), "/gave-up-early"), str("not converged after ", res.iterations, " of ", maxit));
    c.check(res.iterations >= 0 && res.iterations <= maxit, str(sname(s), "/too-many-iterations"), str(res.iterations, " > ", maxit));
    if (d0 > 1e-25) c.check(std::abs(res.reduction - d1 / d0) <= 1e-5 * (d1 / d0) + eps / d0, str(sname(s), "/reduction"), str("call ", call, " reported ", res.reduction, " true ", d1 / d0, " tol ", eps / d0, " it ", res.iterations));
    if (d0 > 1e-25 && res.reduction < R * (1 - 1e-9)) c.check(res.converged, str(sname(s), "/not-converged-though-reduced"), str("reduction ", res.reduction, " requested ", R));
    if (s != BiCGSTAB && res.iterations > 0 && res.reduction > 0) c.check(std::abs(std::log(res.conv_rate) - std::log(res.reduction) / res.iterations) <= 1e-6 * (1 + std::abs(std::log(res.reduction))), str(sname(s), "/rate"), str("rate ", res.conv_rate, " reduction ", res.reduction, " it ", res.iterations));
    if (inPlace(s)) { auto d = bf; for (size_t i = 0; i < d.size(); ++i) d[i] -= r1[i]; c.check(L.norm(d) <= eps + 1e-6 * d1, str(sname(s), "/rhs-not-residual"), str("difference ", L.norm(d), " tol ", eps)); }
    if (maxit >= 200 && R >= 1e-8 && !flexible && !modifies && restart >= 2 && s != Gradient && ((s != GMRes && s != FGMRes) || restart >= long(n))) c.check(res.converged, str(sname(s), "/should-converge"), str("reduction ", res.reduction, " requested ", R, " after ", res.iterations));
    c.sig(str(sname(s), "/", n, "/", restart, "/", maxit, "/", res.iterations, "/", int(-std::log10(R)), "/", weighted, flexible, off, ctor));
  }
}
#if PART == 0
using XT = BlockVector<FieldVector<double, 1>>; using KT = double;
#elif PART == 1
using XT = BlockVector<FieldVector<std::complex<double>, 2>>; using KT = std::complex<double>;
#elif PART == 2
using XT = BlockVector<double>; using KT = double;
#elif PART == 3
using XT = BlockVector<FieldVector<double, 3>>; using KT = double;
#endif
VGROUP("Loop", 1500, 60000) { honest<XT, KT>(c, Loop); }
VGROUP("Gradient", 1500, 60000) { honest<XT, KT>(c, Gradient); }
VGROUP("CG", 1500, 60000) { honest<XT, KT>(c, CG); }
VGROUP("BiCGSTAB", 1500, 60000) { honest<XT, KT>(c, BiCGSTAB); }
VGROUP("MINRES", 1500, 60000) { honest<XT, KT>(c, MINRES); }
VGROUP("GMRes", 1500, 60000) { honest<XT, KT>(c, GMRes); }
VGROUP("FGMRes", 1500, 60000) { honest<XT, KT>(c, FGMRes); }
VGROUP("GPCG", 1500, 60000) { honest<XT, KT>(c, GPCG); }
VGROUP("RFCG", 1500, 60000) { honest<XT, KT>(c, RFCG); }
VGROUP("CFCG", 1500, 60000) { honest<XT, KT>(c, CFCG); }
