// C09: calling protocol of solvers towards operator, preconditioner and scalar product; reuse.
#include "solverspy.hh"
using namespace sp;
using Dune::BlockVector; using Dune::FieldVector;
#if PART == 0
using X = BlockVector<FieldVector<double, 1>>; using K = double; constexpr int bs = 1;
#elif PART == 1
using X = BlockVector<FieldVector<std::complex<double>, 2>>; using K = std::complex<double>; constexpr int bs = 2;
#endif
using V = std::vector<K>;
static V sub(const V& a, const V& b) { V r(a); for (size_t i = 0; i < r.size(); ++i) r[i] -= b[i]; return r; }

static void protocol(vh::Case& c, int s) {
  auto& g = c.rng; size_t n = g.range(1, 20 / bs) * bs, nb = n / bs; auto p = problem<K>(g, s, n, g.coin(0.5), 40, g.coin(0.2)); Rig<X, K> rig; auto& L = rig.L; L.A = p.A; L.W = p.W; L.D = p.D;
  bool flexible = (s == FGMRes || s == GPCG || s == RFCG || s == CFCG) && g.coin(0.3);
  if (flexible) { double amp = g.real(0.1, 0.4); L.flex = [=, W = p.W](const V& d, long j) { auto z = W.mul(d); vh::Rng r(j + 5); auto nz = norm2(z); for (auto& e : z) e += K(amp * nz / std::sqrt(double(z.size()))) * realVal<K>(r); return z; }; }
  bool modifies = g.coin(0.3); int modkind = g.range(0, 2);
  if (modifies) L.onPre = [modkind](V& x, V& b) { if (modkind != 1) for (auto& e : b) e *= K(2); if (modkind != 0) for (auto& e : x) e = K(0.5) * e + K(0.25); };
  double red = std::pow(10, -g.real(0.5, 8)); int maxit = g.pick({0, 1, 2, 3, 5, 8, 15, 40, 150}), restart = (s == RFCG || s == CFCG) ? g.range(0, 8) : g.range(1, 9);
  int startk = g.range(0, 9); if (startk == 0) p.x0 = p.x; if (startk == 1) { std::fill(p.b.begin(), p.b.end(), K(0)); std::fill(p.x0.begin(), p.x0.end(), K(0)); }
  c.note(str(p.text, " red=", red, " maxit=", maxit, " restart=", restart, flexible ? " flexible" : "", modifies ? str(" pre-modifies", modkind) : "", " start=", startk));
  bool weighted = false; for (auto d : p.D) if (d != 1) weighted = true;
  auto sv = rig.solver(s, red, restart, maxit, g.coin(0.1) ? 1 : 0, weighted ? g.range(0, 1) : g.range(0, 2));
  V first; Dune::InverseOperatorResult fr; V firstb; const auto A0 = L.A.a;
  for (int call = 0; call < 3; ++call) {
    bool other = call == 1 && g.coin();        // another system in between, possibly of other data
    X x(nb), b(nb); V x0 = p.x0, b0 = p.b; if (other) { for (auto& e : b0) e = realVal<K>(g); for (auto& e : x0) e = realVal<K>(g); }
    assign(x, x0); assign(b, b0); L.reset(); L.xArg = &x; L.bArg = &b; double worst = 0; bool firstPrec = true; double scale = 0;
    V r00; L.onPrec = [&](const V& d) { auto r = L.residual(flatten<K>(x)); double e = L.norm(sub(r, d)); double t = L.norm(r); bool direct = s == Loop || s == Gradient || s == CG || s == GPCG || s == RFCG || s == CFCG;
      scale = std::max(scale, t); if (firstPrec) { r00 = r; if (s == FGMRes) { V q = r; double nr = L.norm(r); for (auto& v : q) v /= K(nr); e = L.norm(sub(q, d)) * nr; } }
      if (direct || firstPrec) { double An = 0; for (auto& v : L.A.a) An = std::max(An, dabs(v)); double lim = 1e-11 * n * (scale + An * (maxabs(flatten<K>(x)) + maxabs(p.x0)) + maxabs(L.b0)); worst = std::max(worst, e / lim); } firstPrec = false; };
    Dune::InverseOperatorResult res; bool off = g.coin(0.3) && call == 1;
    try { if (off) sv->apply(x, b, red * 0.1, res); else sv->apply(x, b, res); } catch (const Dune::SolverAbort& e) { c.fail(str(sname(s), "/abort"), e.what()); return; }
    L.onPrec = nullptr;
    c.check(L.pre == 1, str(sname(s), "/pre-count"), str("pre() called ", L.pre, " times"));
    c.check(L.post == 1, str(sname(s), "/post-count"), str("post() called ", L.post, " times"));
    c.check(!L.precBeforePre, str(sname(s), "/apply-before-pre")); c.check(!L.precAfterPost, str(sname(s), "/apply-after-post"));
    c.check(!L.nonzeroUpdate, str(sname(s), "/nonzero-initial-update"));
    c.check(L.preX == &x && L.postX == &x, str(sname(s), "/pre-post-arguments"), "pre/post did not get the solution vector"); c.check(L.preB == &b, str(sname(s), "/pre-rhs"), "pre did not get the right-hand side");
    c.check(worst <= 1, str(sname(s), "/defect"), str("defect passed to the preconditioner is not the current residual, excess ", worst));
    c.check(L.A.a == A0, str(sname(s), "/operator-changed"));
    // the scalar product decides: every reported defect went through it
    c.check(L.norms + L.dots > 0 || n == 0 || (!weighted), str(sname(s), "/scalar-product-unused"));
    if (call == 0) { first = flatten<K>(x); firstb = flatten<K>(b); fr = res; }
    if (call == 2 || (call == 1 && !other && !off)) { c.check(flatten<K>(x) == first && flatten<K>(b) == firstb, str(sname(s), "/reuse"), str("call ", call, " differs from the first by ", maxdiff(flatten<K>(x), first))); c.check(res.iterations == fr.iterations && (res.reduction == fr.reduction || fr.reduction != fr.reduction) && res.converged == fr.converged, str(sname(s), "/reuse-result"), str("iterations ", res.iterations, " vs ", fr.iterations)); }
    c.sig(str(sname(s), "/", n, "/", maxit, "/", restart, "/", res.iterations, "/", L.prec, "/", L.op, "/", modifies));
  }
}
// real operator and preconditioners: matrix untouched, reuse bitwise equal, solution agrees with the spying operator
#if PART == 0
static void real_(vh::Case& c, int s) {
  using namespace Dune; auto& g = c.rng; size_t n = g.range(1, 25); Pattern pt = symPattern(g, n); using B = FieldMatrix<double, 1, 1>; using Mat = BCRSMatrix<B>;
  Sp<B> sp; sp.N = sp.M = n; sp.p = pt; std::vector<double> rs(n, 0.0);
  for (size_t i = 0; i < n; ++i) for (auto j : pt[i]) if (j < i) { double v = g.real(-1, 1); sp.v[{i, j}] = v; sp.v[{j, i}] = v; rs[i] += std::abs(v); rs[j] += std::abs(v); }
  for (size_t i = 0; i < n; ++i) sp.v[{i, i}] = rs[i] + g.real(0.1, 1); sp.rebuildDense();
  Mat A = built<Mat>(sp, g); using XX = BlockVector<FieldVector<double, 1>>; MatrixAdapter<Mat, XX, XX> op(A); std::unique_ptr<Preconditioner<XX, XX>> pr; int pk = g.range(0, 3);
  if (pk == 0) pr = std::make_unique<SeqJac<Mat, XX, XX>>(A, 1, 0.5); else if (pk == 1) pr = std::make_unique<SeqSSOR<Mat, XX, XX>>(A, 1, 1.0); else if (pk == 2) pr = std::make_unique<Richardson<XX, XX>>(1.0); else pr = std::make_unique<SeqILU<Mat, XX, XX>>(A, 1.0);
  if (s == Loop && pk == 2) return; std::unique_ptr<IterativeSolver<XX, XX>> sv; double red = 1e-8; int mi = 2000;
  switch (s) { case Loop: sv = std::make_unique<LoopSolver<XX>>(op, *pr, red, mi, 0); break; case Gradient: sv = std::make_unique<GradientSolver<XX>>(op, *pr, red, mi, 0); break; case CG: sv = std::make_unique<CGSolver<XX>>(op, *pr, red, mi, 0); break; case BiCGSTAB: sv = std::make_unique<BiCGSTABSolver<XX>>(op, *pr, red, mi, 0); break; case MINRES: sv = std::make_unique<MINRESSolver<XX>>(op, *pr, red, mi, 0); break;
    case GMRes: sv = std::make_unique<RestartedGMResSolver<XX>>(op, *pr, red, 30, mi, 0); break; case FGMRes: sv = std::make_unique<RestartedFlexibleGMResSolver<XX>>(op, *pr, red, 30, mi, 0); break; case GPCG: sv = std::make_unique<GeneralizedPCGSolver<XX>>(op, *pr, red, mi, 0, 5); break; case RFCG: sv = std::make_unique<RestartedFCGSolver<XX>>(op, *pr, red, mi, 0, 3); break; case CFCG: sv = std::make_unique<CompleteFCGSolver<XX>>(op, *pr, red, mi, 0, 3); break; }
  V xs = randVec<double>(g, n, false), b0 = sp.D.mul(xs); c.note(str(sname(s), " n=", n, " prec=", pk)); V first;
  for (int k = 0; k < 2; ++k) { XX x(n), b(n); x = 0.0; assign(b, b0); InverseOperatorResult r; sv->apply(x, b, r); auto xf = flatten<double>(x); if (k == 0) first = xf; c.check(xf == first, str(sname(s), "/reuse")); c.check(ref::compare(A, sp) == "", str(sname(s), "/matrix"), ref::compare(A, sp));
    if (s != Gradient && s != Loop) { c.check(r.converged, str(sname(s), "/converges"), str("iterations ", r.iterations)); auto rr = sub(b0, sp.D.mul(xf)); if (r.converged) c.check(norm2(rr) <= 1e-5 * norm2(b0) * 1.0 + 1e-12, str(sname(s), "/residual"), str(norm2(rr) / norm2(b0))); } c.sig(str("real/", sname(s), n, "/", pk, "/", r.iterations)); }
}
#endif
VGROUP("protocol-Loop", 1000, 50000) { protocol(c, Loop); }
VGROUP("protocol-Gradient", 1000, 50000) { protocol(c, Gradient); }
VGROUP("protocol-CG", 1000, 50000) { protocol(c, CG); }
VGROUP("protocol-BiCGSTAB", 1000, 50000) { protocol(c, BiCGSTAB); }
VGROUP("protocol-MINRES", 1000, 50000) { protocol(c, MINRES); }
VGROUP("protocol-GMRes", 1000, 50000) { protocol(c, GMRes); }
VGROUP("protocol-FGMRes", 1000, 50000) { protocol(c, FGMRes); }
VGROUP("protocol-GPCG", 1000, 50000) { protocol(c, GPCG); }
VGROUP("protocol-RFCG", 1000, 50000) { protocol(c, RFCG); }
VGROUP("protocol-CFCG", 1000, 50000) { protocol(c, CFCG); }
#if PART == 0
VGROUP("real-Loop", 200, 10000) { real_(c, Loop); }
VGROUP("real-Gradient", 200, 10000) { real_(c, Gradient); }
VGROUP("real-CG", 200, 10000) { real_(c, CG); }
VGROUP("real-BiCGSTAB", 200, 10000) { real_(c, BiCGSTAB); }
VGROUP("real-MINRES", 200, 10000) { real_(c, MINRES); }
VGROUP("real-GMRes", 200, 10000) { real_(c, GMRes); }
VGROUP("real-FGMRes", 200, 10000) { real_(c, FGMRes); }
VGROUP("real-GPCG", 200, 10000) { real_(c, GPCG); }
VGROUP("real-RFCG", 200, 10000) { real_(c, RFCG); }
VGROUP("real-CFCG", 200, 10000) { real_(c, CFCG); }
#endif
