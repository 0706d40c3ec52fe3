// C07: finite termination, optimality of the iterates over the searched space, condition estimate.
#include "solverspy.hh"
using namespace sp;
using Dune::BlockVector; using Dune::FieldVector;
#if PART == 0
using X = BlockVector<FieldVector<double, 1>>; using K = double; constexpr int bs = 1;
#elif PART == 1
using X = BlockVector<FieldVector<std::complex<double>, 1>>; using K = std::complex<double>; constexpr int bs = 1;
#else
using X = BlockVector<FieldVector<double, 2>>; using K = double; constexpr int bs = 2;
#endif
using V = std::vector<K>; using M = DM<K>;
static V sub(const V& a, const V& b) { V r(a); for (size_t i = 0; i < r.size(); ++i) r[i] -= b[i]; return r; }
static K ip(const V& a, const V& b) { K s(0); for (size_t i = 0; i < a.size(); ++i) s += conj_(a[i]) * b[i]; return s; }
// orthonormal basis of the span (Euclidean, reorthogonalised); numerically dependent vectors are dropped
static void extend(std::vector<V>& Q, V v) {
  double n0 = norm2(v); if (!(n0 > 0)) return; for (auto& e : v) e /= K(n0);
  for (int r = 0; r < 3; ++r) for (auto& q : Q) { K s = ip(q, v); for (size_t i = 0; i < v.size(); ++i) v[i] -= s * q[i]; }
  double n1 = norm2(v); if (n1 < 1e-7) return; for (auto& e : v) e /= K(n1); Q.push_back(v);
}
static std::vector<V> krylov(const M& WA, V z, int k) { std::vector<V> Q; extend(Q, z); for (int j = 1; j < k; ++j) { size_t n = Q.size(); if (n != size_t(j)) break; extend(Q, WA.mul(Q.back())); } return Q; }
// minimise || C (r0 - A Q y) ||_2 where C is a square weight (by Gram-Schmidt QR); returns x0 + Q y
static V minres(const M& C, const M& A, const V& x0, const V& r0, const std::vector<V>& Q) {
  size_t k = Q.size(); std::vector<V> U; M R(k, k); V x = x0; if (!k) return x;
  for (size_t j = 0; j < k; ++j) { V u = C.mul(A.mul(Q[j])); for (int rep = 0; rep < 2; ++rep) for (size_t i = 0; i < j; ++i) { K s = ip(U[i], u); R(i, j) += s; for (size_t t = 0; t < u.size(); ++t) u[t] -= s * U[i][t]; } double nn = norm2(u); R(j, j) = nn; if (nn > 0) for (auto& e : u) e /= K(nn); U.push_back(u); }
  V c = C.mul(r0), y(k, K(0)); V rhs(k); for (size_t i = 0; i < k; ++i) rhs[i] = ip(U[i], c);
  for (size_t i = k; i-- > 0;) { K s = rhs[i]; for (size_t j = i + 1; j < k; ++j) s -= R(i, j) * y[j]; y[i] = s / R(i, i); }
  for (size_t j = 0; j < k; ++j) for (size_t t = 0; t < x.size(); ++t) x[t] += y[j] * Q[j][t];
  return x;
}
// minimise the energy norm (x-x*)^H S (x-x*) over x0 + span Q
static V minenergy(const M& S, const V& xs, const V& x0, const std::vector<V>& Q) {
  size_t k = Q.size(); M G(k, k); V rhs(k), y, x = x0; if (!k) return x; V Se = S.mul(sub(xs, x0));
  for (size_t j = 0; j < k; ++j) { V Sq = S.mul(Q[j]); for (size_t i = 0; i < k; ++i) G(i, j) = ip(Q[i], Sq); rhs[j] = ip(Q[j], Se); }
  if (!solve(G, rhs, y)) return x;
  for (size_t j = 0; j < k; ++j) for (size_t t = 0; t < x.size(); ++t) x[t] += y[j] * Q[j][t];
  return x;
}
// Cholesky-like square root weights: returns C with C^H C = H (H Hermitian positive definite)
static M chol(const M& H) { size_t n = H.r; M C(n, n); M L(n, n); for (size_t j = 0; j < n; ++j) { K s = H(j, j); for (size_t k = 0; k < j; ++k) s -= L(j, k) * conj_(L(j, k)); K d = std::sqrt(dabs(s)); L(j, j) = d; for (size_t i = j + 1; i < n; ++i) { K t = H(i, j); for (size_t k = 0; k < j; ++k) t -= L(i, k) * conj_(L(j, k)); L(i, j) = t / d; } } return L.H(); }

struct Run { V x; Dune::InverseOperatorResult res; bool abort = false; std::string what; };
static Run solve1(Rig<X, K>& rig, const Problem<K>& p, int s, double red, int restart, int maxit, int ctor, bool cond = false) {
  auto& L = rig.L; L.A = p.A; L.W = p.W; L.D = p.D; L.reset();
  X x(p.n / bs), b(p.n / bs); assign(x, p.x0); assign(b, p.b); Run r;
  auto sv = rig.solver(s, red, restart, maxit, 0, ctor, cond);
  try { sv->apply(x, b, r.res); } catch (const Dune::SolverAbort& e) { r.abort = true; r.what = e.what(); }
  r.x = flatten<K>(x); return r;
}
static M weight(const Problem<K>& p, int s) { // C with measured norm = ||C r||_2
  size_t n = p.n; M Dh(n, n); for (size_t i = 0; i < n; ++i) Dh(i, i) = std::sqrt(p.D[i]);
  if (s == GMRes) return Dh.mul(p.W);
  if (s == MINRES) { M H(n, n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) H(i, j) = K(p.D[i]) * p.W(i, j); return chol(H); }
  return Dh;
}
static double energy(const M& S, const V& e) { return std::sqrt(std::max(0.0, dabs(ip(e, S.mul(e))))); }

static void optimal(vh::Case& c, int s) {
  auto& g = c.rng; size_t n = g.range(s == BiCGSTAB ? 3 : 1, 16 / bs) * bs; auto p = problem<K>(g, s, n, g.coin(0.4), 30, g.coin(0.3));
  int k = g.range(1, std::min<int>(8, n)), restart = g.coin(0.35) ? g.range(1, 3) : 20;
  if (s == GPCG && restart == 1 && g.coin()) restart = 2;
  bool flexible = (s == FGMRes || s == GPCG || s == RFCG || s == CFCG) && g.coin(0.4);
  int ctor = g.range(0, 1); Rig<X, K> rig;
  if (flexible) { double amp = g.real(0.1, 0.5); std::uint64_t sd = g.next(); rig.L.flex = [=, W = p.W](const V& d, long j) { auto z = W.mul(d); vh::Rng r(sd + j); auto nz = norm2(z); for (auto& e : z) e += K(amp * nz / std::sqrt(double(z.size()))) * realVal<K>(r); return z; }; }
  c.note(str(p.text, " k=", k, " restart=", restart, flexible ? " flexible" : ""));
  int mm = (s == RFCG || s == CFCG) ? restart - 1 : restart; // mmax: number of previous directions
  auto r = solve1(rig, p, s, 1e-250, mm, k, ctor);
  V r0 = sub(p.b, p.A.mul(p.x0));
  M WA = p.W.mul(p.A); V ref = p.x0;
  auto dir = [&](size_t from, size_t to) { std::vector<V> Q; for (size_t j = from; j < to && j < rig.L.zs.size(); ++j) extend(Q, rig.L.zs[j]); return Q; };
  bool energyNorm = needsSPD(s) || s == Loop;
  if (r.res.converged) { // exact solution found early (defect below the absolute floor)
    V e = sub(r.x, p.x); double t = maxabs(p.x) + maxabs(p.x0); c.check(maxabs(e) <= 1e-8 * t, str(sname(s), "/early"), str("error ", maxabs(e))); c.sig(str(sname(s), "early/", n, "/", r.res.iterations)); return; }
  if (r.abort) { // only at an exactly solved system may there be nothing left to do
    V e = sub(r.x, p.x); double t = maxabs(p.x) + maxabs(p.x0);
    bool grade = krylov(WA, p.W.mul(r0), n).size() < size_t(k);
    c.check(grade || maxabs(e) <= 1e-9 * t, str(sname(s), "/abort"), r.what); c.sig(str(sname(s), "abort/", n)); return; }
  switch (s) {
    case Loop: { V rr = r0; for (int j = 0; j < k; ++j) { V z = p.W.mul(rr); for (size_t i = 0; i < n; ++i) ref[i] += z[i]; rr = sub(p.b, p.A.mul(ref)); } break; }
    case Gradient: { V rr = r0; for (int j = 0; j < k; ++j) { V z = p.W.mul(rr), q = p.A.mul(z); K lam = rig.L.dot(z, rr) / rig.L.dot(z, q); for (size_t i = 0; i < n; ++i) { ref[i] += lam * z[i]; rr[i] -= lam * q[i]; } if (!(norm2(rr) > 1e-200)) break; } break; }
    case BiCGSTAB: { V rr = r0, rt = r0, pv, v; K rho(1), al(1), om(1); double mn = 1;
      for (int j = 0; j < k; ++j) { K rn = rig.L.dot(rt, rr); mn = std::min(mn, dabs(rn) / (rig.L.norm(rt) * rig.L.norm(rr))); if (j == 0) pv = rr; else { K be = rn / rho * (al / om); for (size_t i = 0; i < n; ++i) pv[i] = rr[i] + be * (pv[i] - om * v[i]); }
        V y = p.W.mul(pv); v = p.A.mul(y); K h = rig.L.dot(rt, v); mn = std::min(mn, dabs(h) / (rig.L.norm(rt) * rig.L.norm(v))); al = rn / h; for (size_t i = 0; i < n; ++i) { ref[i] += al * y[i]; rr[i] -= al * v[i]; }
        V y2 = p.W.mul(rr), t = p.A.mul(y2); om = rig.L.dot(t, rr) / rig.L.dot(t, t); for (size_t i = 0; i < n; ++i) { ref[i] += om * y2[i]; rr[i] -= om * t[i]; } rho = rn; if (rig.L.norm(rr) < 1e-6 * rig.L.norm(r0)) { c.sig(str("bicgstab/fast", n)); return; } }
      if (mn < 1e-2 || !finite(ref)) { c.sig(str("bicgstab/weak", n, "/", k)); return; } break; }
    case CG: case MINRES: { auto Q = krylov(WA, p.W.mul(r0), k); ref = s == CG ? minenergy(p.S, p.x, p.x0, Q) : minres(weight(p, s), p.A, p.x0, r0, Q); break; }
    case GMRes: for (int done = 0; done < k; done += restart) { V rr = sub(p.b, p.A.mul(ref)); auto Q = krylov(WA, p.W.mul(rr), std::min(restart, k - done)); ref = minres(weight(p, s), p.A, ref, rr, Q); } break;
    case FGMRes: for (int done = 0; done < k; done += restart) { V rr = sub(p.b, p.A.mul(ref)); auto Q = flexible ? dir(done, std::min(done + restart, k)) : krylov(WA, p.W.mul(rr), std::min(restart, k - done)); ref = minres(weight(p, s), p.A, ref, rr, Q); } break;
    default: // flexible conjugate gradients
      if (!flexible && restart >= 2) ref = minenergy(p.S, p.x, p.x0, krylov(WA, p.W.mul(r0), k));
      else if (restart >= k) ref = minenergy(p.S, p.x, p.x0, dir(0, k));
      else if (restart == 1) { V rr = r0; for (int j = 0; j < k; ++j) { V z = rig.L.zs[j], q = p.A.mul(z); K lam = rig.L.dot(z, rr) / rig.L.dot(z, q); for (size_t i = 0; i < n; ++i) { ref[i] += lam * z[i]; rr[i] -= lam * q[i]; } } }
      else { // truncated: explicit conjugation against the directions the method keeps
        std::vector<V> d; std::vector<V> keep; V rr = r0; size_t slot = 0;
        for (int j = 0; j < k; ++j) { V z = rig.L.zs[j], w = z;
          if (s == CFCG) { for (auto& q : keep) { V Sq = p.S.mul(q); K f = ip(Sq, w) / ip(q, Sq); for (size_t i = 0; i < n; ++i) z[i] -= f * q[i]; } }
          else for (auto& q : keep) { V Sq = p.S.mul(q); K f = ip(Sq, w) / ip(q, Sq); for (size_t i = 0; i < n; ++i) z[i] -= f * q[i]; }
          V q = p.A.mul(z); K lam = rig.L.dot(z, rr) / rig.L.dot(z, q); for (size_t i = 0; i < n; ++i) { ref[i] += lam * z[i]; rr[i] -= lam * q[i]; }
          keep.push_back(z); (void)slot;
          if (s == CFCG) { // the oldest slot is overwritten next: never more than restart-1 older directions
            if (keep.size() >= size_t(restart)) keep.erase(keep.begin()); }
          else if (keep.size() == size_t(restart)) { V l = keep.back(); keep.clear(); keep.push_back(l); } }
      }
  }
  double sc = maxabs(p.x) + maxabs(p.x0);
  if (energyNorm) { V e = sub(r.x, p.x), er = sub(ref, p.x), e0 = sub(p.x0, p.x); M S = s == Loop ? M::id(n) : p.S; double a = energy(S, e), b = energy(S, er), d = energy(S, sub(r.x, ref)), z = energy(S, e0) + 1e-14 * sc;
    c.check(d <= 1e-6 * b + 1e-9 * z, str(sname(s), "/iterate"), str("iterate differs from the optimal/defining one by ", d, " (energy norm), error ", a, " optimal ", b, " initial ", z));
  } else { auto C = weight(p, s); double a = norm2(C.mul(sub(p.b, p.A.mul(r.x)))), b = norm2(C.mul(sub(p.b, p.A.mul(ref)))), z = norm2(C.mul(r0)), d = norm2(C.mul(p.A.mul(sub(r.x, ref)))); double tol = s == BiCGSTAB ? 1e-6 : 1e-9;
    if (s == BiCGSTAB) c.check(d <= tol * std::max(z, b), str(sname(s), "/iterate"), str("iterate differs from the defining recursion by ", d, " initial ", z, " ref ", b));
    else { c.check(a <= b * (1 + 1e-6) + tol * z, str(sname(s), "/optimality"), str("defect ", a, " minimum over the searched space ", b, " initial ", z)); c.check(d <= 1e-4 * b + 1e-8 * z || std::abs(a - b) <= 1e-9 * z, str(sname(s), "/iterate"), str("difference ", d)); if (s != BiCGSTAB) c.check(a >= b * (1 - 1e-6) - tol * z, str(sname(s), "/outside-search-space"), str("defect ", a, " below minimum ", b)); } }
  c.check(r.res.iterations == k, str(sname(s), "/count"), str(r.res.iterations, " of ", k));
  c.sig(str(sname(s), "/", n, "/", k, "/", restart, "/", flexible, "/", p.text.find("weighted") != std::string::npos));
}
static void finite_(vh::Case& c, int s) {
  auto& g = c.rng; size_t n = g.range(1, 24 / bs) * bs; auto p = problem<K>(g, s, n, g.coin(0.4), 40, g.coin(0.3)); Rig<X, K> rig; double red = std::pow(10, -g.real(1, 7));
  int restart = s == GMRes || s == FGMRes ? n + g.range(1, 5) : g.range(2, 20); int lim = s == BiCGSTAB ? 3 * n + 10 : s == MINRES ? n + n / 3 + 3 : n + 2;
  c.note(str(p.text, " red=", red, " restart=", restart));
  auto r = solve1(rig, p, s, red, restart, 5 * n + 50, g.range(0, 1));
  if (!c.check(!r.abort, str(sname(s), "/abort"), r.what)) return;
  c.check(r.res.converged && r.res.iterations <= lim, str(sname(s), "/finite-termination"), str("converged ", r.res.converged, " after ", r.res.iterations, " for dimension ", n, " reduction ", r.res.reduction));
  c.sig(str(sname(s), "/", n, "/", r.res.iterations, "/", int(-std::log10(red))));
}
VGROUP("optimal-Loop", 1000, 60000) { optimal(c, Loop); }
VGROUP("optimal-Gradient", 1000, 60000) { optimal(c, Gradient); }
VGROUP("optimal-CG", 1000, 60000) { optimal(c, CG); }
VGROUP("optimal-BiCGSTAB", 1000, 60000) { optimal(c, BiCGSTAB); }
VGROUP("optimal-MINRES", 1000, 60000) { optimal(c, MINRES); }
VGROUP("optimal-GMRes", 1000, 60000) { optimal(c, GMRes); }
VGROUP("optimal-FGMRes", 1000, 60000) { optimal(c, FGMRes); }
VGROUP("optimal-GPCG", 1000, 60000) { optimal(c, GPCG); }
VGROUP("optimal-RFCG", 1000, 60000) { optimal(c, RFCG); }
VGROUP("optimal-CFCG", 1000, 60000) { optimal(c, CFCG); }
VGROUP("finite-CG", 400, 30000) { finite_(c, CG); }
VGROUP("finite-BiCGSTAB", 400, 30000) { finite_(c, BiCGSTAB); }
VGROUP("finite-MINRES", 400, 30000) { finite_(c, MINRES); }
VGROUP("finite-GMRes", 400, 30000) { finite_(c, GMRes); }
VGROUP("finite-FGMRes", 400, 30000) { finite_(c, FGMRes); }
VGROUP("finite-GPCG", 400, 30000) { finite_(c, GPCG); }
VGROUP("finite-RFCG", 400, 30000) { finite_(c, RFCG); }
VGROUP("finite-CFCG", 400, 30000) { finite_(c, CFCG); }
#if PART == 0
// condition estimate: extreme Ritz values of the Krylov space explored so far
VGROUP("condition", 1500, 60000) {
  auto& g = c.rng; size_t n = g.range(2, 20); auto p = problem<K>(g, CG, n, g.coin(0.4), 200, g.coin(0.3)); Rig<X, K> rig;
  bool full = g.coin(0.4); int k = full ? 5 * n + 20 : g.range(1, std::min<long>(8, n)); double red = full ? 1e-12 : g.pick({1e-250, 1e-250, 1e-2});
  c.note(str(p.text, " limit=", k, " red=", red, full ? " full" : ""));
  auto r = solve1(rig, p, CG, red, 0, k, g.range(0, 1), true);
  if (!c.check(!r.abort, "abort", r.what)) return;
  int it = r.res.iterations; if (it == 0) { c.check(r.res.condition_estimate == -1, "none", "estimate without iterations"); return; }
  V r0 = sub(p.b, p.A.mul(p.x0)); M WA = p.W.mul(p.A); auto Q = krylov(WA, p.W.mul(r0), it);
  // Ritz values of W A in the W^-1 inner product == generalised problem Q^H S Q y = theta Q^H P^-1 Q y
  M Pi; inverse(p.P, Pi); size_t m = Q.size(); DM<double> G(m, m), H(m, m);
  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < m; ++j) { G(i, j) = ip(Q[i], p.S.mul(Q[j])); H(i, j) = ip(Q[i], Pi.mul(Q[j])); }
  auto C = chol(H), Ci = C; inverse(C, Ci); auto T = Ci.H().mul(G).mul(Ci); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < i; ++j) T(i, j) = T(j, i) = 0.5 * (T(i, j) + T(j, i));
  auto ev = symeig(T); double ref = ev.back() / ev.front();
  if (int(m) == it && it <= 10) c.check(std::abs(r.res.condition_estimate - ref) <= 1e-4 * ref, "estimate", str("reported ", r.res.condition_estimate, " Ritz ", ref, " iterations ", it));
  // the whole spectrum, when the space was exhausted
  size_t N = n; DM<double> F(N, N); auto CP = chol(Pi), CPi = CP; inverse(CP, CPi); F = CPi.H().mul(p.S).mul(CPi); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < i; ++j) F(i, j) = F(j, i) = 0.5 * (F(i, j) + F(j, i)); auto fe = symeig(F); double cond = fe.back() / fe.front();
  c.check(r.res.condition_estimate <= cond * (1 + 1e-5) && r.res.condition_estimate >= 1 - 1e-6, "bound", str("reported ", r.res.condition_estimate, " condition ", cond));
  if (full && m == N) c.check(std::abs(r.res.condition_estimate - cond) <= 1e-3 * cond, "full", str("reported ", r.res.condition_estimate, " condition ", cond, " iterations ", it));
  c.sig(str("cond/", n, "/", it, "/", full));
}
#endif
