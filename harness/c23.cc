// C23: NaN/Inf, breakdowns and exceptions of components surface; the solver object stays usable.
#include "solverspy.hh"
using namespace sp;
using Dune::BlockVector; using Dune::FieldVector;
#if PART == 0
using X = BlockVector<FieldVector<double, 1>>; using K = double; constexpr int bs = 1;
#elif PART == 1
using X = BlockVector<FieldVector<std::complex<double>, 2>>; using K = std::complex<double>; constexpr int bs = 2;
#endif
using V = std::vector<K>;
static V sub(const V& a, const V& b) { V r(a); for (size_t i = 0; i < r.size(); ++i) r[i] -= b[i]; return r; }
struct Out { V x; Dune::InverseOperatorResult res; int kind = 0; std::string what; int id = 0; }; // 0 returned, 1 SolverAbort, 2 injected, 3 other
static Out run(Dune::IterativeSolver<X, X>& sv, const V& x0, const V& b0, double one) {
  Out o; X x(x0.size() / bs), b(b0.size() / bs); assign(x, x0); assign(b, b0); o.res.converged = true;
  try { if (one > 0) sv.apply(x, b, one, o.res); else sv.apply(x, b, o.res); }
  catch (const Dune::SolverAbort& e) { o.kind = 1; o.what = e.what(); } catch (const Injected& e) { o.kind = 2; o.id = e.id; } catch (const std::exception& e) { o.kind = 3; o.what = e.what(); }
  o.x = flatten<K>(x); return o;
}
static double meas(const Log<K>& L, int s, const V& r) { if (s == GMRes) return L.norm(L.W.mul(r)); if (s == MINRES) return std::sqrt(dabs(L.dot(r, L.W.mul(r)))); return L.norm(r); }
// a claim of convergence must be true (NaN never passes)
static void honest(vh::Case& c, Rig<X, K>& rig, int s, const Out& o, const V& x0, double red, const char* where) {
  auto& L = rig.L; if (o.kind != 0) { if (rig.L.post == 0) c.check(!o.res.converged, str(sname(s), "/converged-flag-after-exception"), str(where, " ", o.what)); return; }
  if (!o.res.converged) return;
  double d0 = meas(L, s, L.residual(x0)), d1 = meas(L, s, L.residual(o.x)); double An = 0; for (auto& e : L.A.a) An = std::max(An, dabs(e));
  double Wn = 1; if (s == GMRes || s == MINRES) { Wn = 0; for (auto& e : L.W.a) Wn = std::max(Wn, dabs(e)); }
  c.check(finite(o.x) && d1 <= red * d0 * 1.001 + 1e-10 * (L.maxNorm + Wn * (An * (maxabs(o.x) + maxabs(x0)) + maxabs(L.b0))), str(sname(s), "/false-claim"), str(where, ": claims convergence, defect ", d1, " initial ", d0, " requested ", red, " finite ", finite(o.x), " it ", o.res.iterations));
}
static void faults(vh::Case& c, int s) {
  auto& g = c.rng; size_t n = g.range(1, 16 / bs) * bs; auto p = problem<K>(g, s, n, g.coin(0.4), 30, g.coin(0.2)); Rig<X, K> rig; auto& L = rig.L; L.A = p.A; L.W = p.W; L.D = p.D;
  double red = std::pow(10, -g.real(2, 7)), one = g.coin(0.4) ? std::pow(10, -g.real(0.3, 8)) : 0; int maxit = g.pick({1, 3, 10, 60}), restart = (s == RFCG || s == CFCG) ? g.range(0, 6) : g.range(1, 8);
  int ctor = g.range(0, 1); auto sv = rig.solver(s, red, restart, maxit, 0, ctor);
  std::string text;
  for (int round = g.range(1, 3); round > 0; --round) {
    Fault f; f.where = Fault::Where(g.range(0, 5)); f.what = Fault::What(g.range(0, 2)); f.at = g.coin(0.3) ? 0 : g.range(0, 12); if (f.where == Fault::Pre || f.where == Fault::Post) { f.what = Fault::Throw; f.at = 0; }
    V x0 = p.x0, b0 = p.b; const char* data = ""; if (f.where == Fault::None) { double bad = g.coin() ? std::nan("") : (g.coin() ? HUGE_VAL : -HUGE_VAL); if (g.coin()) { b0[g.range(0, n - 1)] = K(bad); data = "rhs"; } else { x0[g.range(0, n - 1)] = K(bad); data = "x0"; } }
    L.reset(); L.fault = f; c.note(str(p.text, " red=", red, " one-off=", one, " maxit=", maxit, " restart=", restart, " fault where=", int(f.where), " what=", int(f.what), " at=", f.at, " ", data));
    auto o = run(*sv, x0, b0, one); bool fired = L.fault.fired; double R = one > 0 ? one : red;
    if (o.kind == 3) c.fail(str(sname(s), "/other-exception"), o.what);
    if (f.what == Fault::Throw && f.where != Fault::None) { if (fired) c.check(o.kind == 2 && o.id == int(f.where) * 1000 + f.at, str(sname(s), "/exception-swallowed"), str("kind ", o.kind, " ", o.what)); else c.check(o.kind == 0, str(sname(s), "/spurious"), o.what); }
    if (f.where == Fault::None) c.check(o.kind == 1 || (o.kind == 0 && !o.res.converged), str(sname(s), "/bad-data-accepted"), str(data, " kind ", o.kind, " converged ", o.res.converged));
    L.fault = Fault(); // the oracle itself must not trip
    if (f.where != Fault::None || o.kind) { if (f.where != Fault::None) honest(c, rig, s, o, x0, R, "after fault"); else c.check(!o.res.converged, str(sname(s), "/converged-flag-after-exception"), o.what); }
    if (o.kind == 0) c.check(o.res.iterations <= maxit, str(sname(s), "/limit"), str(o.res.iterations));
    text += str(int(f.where), int(f.what), f.at, o.kind, fired, ";");
    // the same object, healthy again
    L.reset(); L.fault = Fault(); auto h = run(*sv, p.x0, p.b, 0); L.reset(); auto fresh = rig.solver(s, red, restart, maxit, 0, ctor); auto h2 = run(*fresh, p.x0, p.b, 0);
    c.check(h.kind == 0 && h2.kind == 0, str(sname(s), "/unusable"), h.what + h2.what);
    c.check(h.x == h2.x && h.res.iterations == h2.res.iterations && h.res.converged == h2.res.converged && h.res.reduction == h2.res.reduction, str(sname(s), "/state-left"), str("after the failure: iterations ", h.res.iterations, " reduction ", h.res.reduction, "; fresh object: ", h2.res.iterations, " ", h2.res.reduction));
  }
  c.sig(str(sname(s), "/", n, "/", text));
}
// breakdowns: singular, skew, zero and indefinite operators with exact small integers
static void breakdown(vh::Case& c, int s) {
  auto& g = c.rng; size_t nb = g.range(1, 6 / bs), n = nb * bs; Rig<X, K> rig; auto& L = rig.L; L.A = DM<K>(n, n); L.W = DM<K>::id(n); L.D.assign(n, 1.0); int kind = g.range(0, 9); auto& A = L.A;
  auto sym = [&] { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { A(i, j) = i == j ? K(g.range(-2, 2)) : smallInt<K>(g, 2); A(j, i) = conj_(A(i, j)); } };
  switch (kind) {
    case 0: break;                                                                         // zero operator
    case 1: for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) { A(i, j) = smallInt<K>(g, 2); A(j, i) = -conj_(A(i, j)); } break; // skew
    case 2: sym(); break;
    case 3: for (auto& e : A.a) e = smallInt<K>(g, 2); break;
    case 4: for (size_t i = 0; i < n; ++i) A(i, i) = K(g.range(0, 1)); break;            // projector
    case 5: for (size_t i = 0; i + 1 < n; ++i) A(i, i + 1) = K(1); break;                 // nilpotent
    case 6: for (size_t i = 0; i < n; ++i) A(i, (i + 1) % n) = K(1); break;               // cyclic shift
    case 7: sym(); for (size_t j = 0; j < n; ++j) { A(n - 1, j) = A(0, j); } for (size_t j = 0; j < n; ++j) A(j, n - 1) = conj_(A(n - 1, j)); break;
    case 8: { V u = randVec<K>(g, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) A(i, j) = u[i] * conj_(u[j]); break; } // rank one
    case 9: for (size_t i = 0; i < n; ++i) A(i, i) = K(g.range(0, 2)); L.W = DM<K>(n, n); break; // zero preconditioner
  }
  if (kind != 9 && g.coin(0.2)) for (size_t i = 0; i < n; ++i) L.W(i, i) = K(g.pick({0.5, 1.0, 2.0}));
  double sc = g.pick({1.0, 1.0, std::ldexp(1, -60), std::ldexp(1, 60)}); for (auto& e : A.a) e *= K(sc);
  V b = randVec<K>(g, n), x0(n, K(0)); if (g.coin(0.3)) x0 = randVec<K>(g, n); if (g.coin(0.4)) b = A.mul(randVec<K>(g, n)); else if (g.coin()) for (auto& e : b) e *= K(sc);
  double red = std::pow(10, -g.real(0.5, 8)); int maxit = g.pick({1, 2, 3, 5, 20, 100}), restart = (s == RFCG || s == CFCG) ? g.range(0, 6) : g.range(1, 8);
  c.note(str(sname(s), " kind=", kind, " scale=", sc, " A=", show(A), " b=", show(b), " x0=", show(x0), " red=", red, " maxit=", maxit, " restart=", restart));
  auto sv = rig.solver(s, red, restart, maxit, 0, g.range(0, 1)); L.reset(); auto o = run(*sv, x0, b, 0);
  if (o.kind == 3) c.fail(str(sname(s), "/other-exception"), o.what);
  if (o.kind == 0 && !o.res.converged) c.check(o.res.iterations <= maxit, str(sname(s), "/limit"));
  L.b0 = b; bool spdNorm = true; if (s == MINRES) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (A(i, j) != conj_(A(j, i))) spdNorm = false; // needs self-adjointness
  if (s == MINRES && kind == 9) spdNorm = false; if (s == GMRes && kind == 9) spdNorm = false;
  // methods that estimate the defect by a recursion cannot detect an operator that is singular only up to rounding
  bool recursion = s == MINRES || s == GMRes || s == FGMRes; DM<K> I; if (recursion && kind != 0 && kind != 9 && !inverse(A, I)) spdNorm = false;
  if (spdNorm) honest(c, rig, s, o, x0, red, "breakdown");
  c.sig(str(sname(s), "/", kind, "/", n, "/", o.kind, "/", o.res.iterations, "/", maxit, "/", restart, "/", o.res.converged));
}
VGROUP("faults-Loop", 1000, 50000) { faults(c, Loop); }
VGROUP("breakdown-Loop", 1000, 80000) { breakdown(c, Loop); }
VGROUP("faults-Gradient", 1000, 50000) { faults(c, Gradient); }
VGROUP("breakdown-Gradient", 1000, 80000) { breakdown(c, Gradient); }
VGROUP("faults-CG", 1000, 50000) { faults(c, CG); }
VGROUP("breakdown-CG", 1000, 80000) { breakdown(c, CG); }
VGROUP("faults-BiCGSTAB", 1000, 50000) { faults(c, BiCGSTAB); }
VGROUP("breakdown-BiCGSTAB", 1000, 80000) { breakdown(c, BiCGSTAB); }
VGROUP("faults-MINRES", 1000, 50000) { faults(c, MINRES); }
VGROUP("breakdown-MINRES", 1000, 80000) { breakdown(c, MINRES); }
VGROUP("faults-GMRes", 1000, 50000) { faults(c, GMRes); }
VGROUP("breakdown-GMRes", 1000, 80000) { breakdown(c, GMRes); }
VGROUP("faults-FGMRes", 1000, 50000) { faults(c, FGMRes); }
VGROUP("breakdown-FGMRes", 1000, 80000) { breakdown(c, FGMRes); }
VGROUP("faults-GPCG", 1000, 50000) { faults(c, GPCG); }
VGROUP("breakdown-GPCG", 1000, 80000) { breakdown(c, GPCG); }
VGROUP("faults-RFCG", 1000, 50000) { faults(c, RFCG); }
VGROUP("breakdown-RFCG", 1000, 80000) { breakdown(c, RFCG); }
VGROUP("faults-CFCG", 1000, 50000) { faults(c, CFCG); }
VGROUP("breakdown-CFCG", 1000, 80000) { breakdown(c, CFCG); }
