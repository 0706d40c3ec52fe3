// Independent (dense/sparse scalar) model of a multigrid cycle on given aggregates.
#pragma once
#include "amgprob.hh"
namespace mg {
typedef std::vector<double> V; constexpr size_t NONE = size_t(-1);
struct Level {
  size_t N = 0; int n = 1; std::vector<std::map<size_t, double>> a; Pattern p; std::vector<size_t> agg; size_t nc = 0; // agg: coarse index or NONE
  DM<double> inv; bool hasInv = false; mutable std::vector<std::vector<std::pair<size_t, double>>> r_; mutable std::vector<DM<double>> d_; // fast copies
  const std::vector<std::vector<std::pair<size_t, double>>>& rows() const { if (r_.empty()) for (auto& m : a) r_.emplace_back(m.begin(), m.end()); return r_; }
  const DM<double>& dinv(size_t i) const { if (d_.empty()) for (size_t k = 0; k < N; ++k) { DM<double> I; inverse(block(k, k), I); d_.push_back(I); } return d_[i]; }
  size_t size() const { return N * n; }
  V mul(const V& x) const { V y(size(), 0); rows(); for (size_t i = 0; i < a.size(); ++i) { double t = 0; const auto* e = r_[i].data(); const double* xx = x.data(); for (size_t k = r_[i].size(); k-- > 0; ++e) t += e->second * xx[e->first]; y[i] = t; } return y; }
  V resid(const V& b, const V& x) const { V r = mul(x); for (size_t i = 0; i < r.size(); ++i) r[i] = b[i] - r[i]; return r; }
  DM<double> block(size_t i, size_t j) const { DM<double> D(n, n); for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) { auto it = a[i * n + r].find(j * n + c); if (it != a[i * n + r].end()) D(r, c) = it->second; } return D; }
  V direct(const V& b) { if (!hasInv) { DM<double> D(size(), size()); for (size_t i = 0; i < a.size(); ++i) for (auto& e : a[i]) D(i, e.first) = e.second; inverse(D, inv); hasInv = true; } V x(size(), 0); auto add = [&](const V& f) { size_t m = x.size(); const double *I = inv.a.data(), *F = f.data(); for (size_t i = 0; i < m; ++i) { double t = 0; for (size_t j = 0; j < m; ++j) t += I[i * m + j] * F[j]; x[i] += t; } }; add(b); add(resid(b, x)); return x; }
  V restrict_(const V& r) const { V c(nc * n, 0); for (size_t i = 0; i < N; ++i) if (agg[i] != NONE) for (int k = 0; k < n; ++k) c[agg[i] * n + k] += r[i * n + k]; return c; }
  V prolong(const V& c) const { V r(size(), 0); for (size_t i = 0; i < N; ++i) if (agg[i] != NONE) for (int k = 0; k < n; ++k) r[i * n + k] = c[agg[i] * n + k]; return r; }
  Level coarse() const { Level L; L.N = nc; L.n = n; L.a.resize(nc * n); L.p.assign(nc, {}); for (size_t i = 0; i < N; ++i) if (agg[i] != NONE) { for (auto j : p[i]) if (agg[j] != NONE) L.p[agg[i]].insert(agg[j]); for (int k = 0; k < n; ++k) for (auto& e : a[i * n + k]) { size_t j = e.first / n; if (agg[j] != NONE) L.a[agg[i] * n + k][agg[j] * n + e.first % n] += e.second; } } return L; }
};
template<class B> inline Level level(const Sp<B>& s) { Level L; L.N = s.N; L.n = Blk<B>::n; L.p = s.p; L.a.resize(L.size()); for (auto& e : s.v) { DM<double> D(L.n, L.n); Blk<B>::put(e.second, D, 0, 0); for (int r = 0; r < L.n; ++r) for (int c = 0; c < L.n; ++c) L.a[e.first.first * L.n + r][e.first.second * L.n + c] = D(r, c); } return L; }
enum Kind { Jac, SOR, SSOR, ILU };
struct Smoother { Kind kind = Jac; double w = 1; int it = 1; std::function<V(const Level&, const V&, bool)> fn; }; // fn: any other smoother
struct Ilu { std::map<std::pair<size_t, size_t>, DM<double>> m; };
inline Ilu ilu0(const Level& L) {
  Ilu f; for (size_t i = 0; i < L.N; ++i) for (auto j : L.p[i]) f.m[{i, j}] = L.block(i, j);
  for (size_t i = 0; i < L.N; ++i) for (auto k : L.p[i]) { if (k >= i) break; DM<double> inv; inverse(f.m[{k, k}], inv); auto& lik = f.m[{i, k}]; lik = lik.mul(inv); for (auto j : L.p[k]) if (j > k && L.p[i].count(j)) f.m[{i, j}] = f.m[{i, j}] - lik.mul(f.m[{k, j}]); }
  return f;
}
inline void sub(const DM<double>& D, const double* x, double* r) { for (size_t i = 0; i < D.r; ++i) for (size_t j = 0; j < D.c; ++j) r[i] -= D(i, j) * x[j]; }
inline V smooth(const Level& L, const Smoother& s, const V& b, bool backward) { // one smoother application to a zero initial guess
  if (s.fn) return s.fn(L, b, backward);
  int n = L.n; V x(L.size(), 0);
  if (s.kind == ILU) { Ilu f = ilu0(L); x = b; for (size_t i = 0; i < L.N; ++i) for (auto j : L.p[i]) if (j < i) sub(f.m[{i, j}], &x[j * n], &x[i * n]); for (size_t i = L.N; i-- > 0;) { for (auto j : L.p[i]) if (j > i) sub(f.m[{i, j}], &x[j * n], &x[i * n]); V t(x.begin() + i * n, x.begin() + (i + 1) * n), y; solve(f.m[{i, i}], t, y); std::copy(y.begin(), y.end(), x.begin() + i * n); } for (auto& v : x) v *= s.w; return x; }
  const auto& rows = L.rows(); double t[8], y[8];
  auto rel = [&](size_t i, const V& from) { const double* F = from.data(); for (int k = 0; k < n; ++k) { t[k] = b[i * n + k]; for (auto& e : rows[i * n + k]) t[k] -= e.second * F[e.first]; } const DM<double>& D = L.dinv(i); for (int k = 0; k < n; ++k) { y[k] = 0; for (int j = 0; j < n; ++j) y[k] += D(k, j) * t[j]; } for (int k = 0; k < n; ++k) x[i * n + k] += s.w * y[k]; };
  for (int it = 0; it < s.it; ++it) {
    if (s.kind == Jac) { V old = x; for (size_t i = 0; i < L.N; ++i) rel(i, old); continue; }
    if (s.kind == SSOR || !backward) for (size_t i = 0; i < L.N; ++i) rel(i, x);
    if (s.kind == SSOR || backward) for (size_t i = L.N; i-- > 0;) rel(i, x);
  }
  return x;
}
struct Cycle {
  std::vector<Level> lv; Smoother s; int pre = 1, post = 1, gamma = 1; double damp = 1; bool additive = false; std::function<V(const V&)> coarseSolve;
  // aggs[l]: aggregate of every vertex of level l
  void setup(Level fine, const std::vector<std::vector<size_t>>& aggs) { lv.clear(); lv.push_back(std::move(fine)); for (auto& g : aggs) { Level& f = lv.back(); f.agg = g; f.nc = 0; for (auto v : g) if (v != NONE) f.nc = std::max(f.nc, v + 1); Level c = f.coarse(); lv.push_back(std::move(c)); } }
  void revalue(Level fine) { std::vector<std::vector<size_t>> g; for (auto& l : lv) g.push_back(l.agg); g.pop_back(); setup(std::move(fine), g); }
  V solveCoarse(const V& b) { return coarseSolve ? coarseSolve(b) : lv.back().direct(b); }
  V run(size_t l, const V& b) {
    if (l + 1 == lv.size()) return solveCoarse(b); Level& L = lv[l]; V u(L.size(), 0), r = b; auto add = [&](const V& d, double f = 1) { for (size_t i = 0; i < u.size(); ++i) u[i] += f * d[i]; r = L.resid(b, u); };
    for (int k = 0; k < pre; ++k) add(smooth(L, s, r, false));
    V rc = L.restrict_(r), c(rc.size(), 0); for (int k = 0; k < (l + 2 == lv.size() ? 1 : gamma); ++k) { V d = run(l + 1, k ? lv[l + 1].resid(rc, c) : rc); for (size_t i = 0; i < c.size(); ++i) c[i] += d[i]; }
    add(L.prolong(c), damp); for (int k = 0; k < post; ++k) add(smooth(L, s, r, s.kind == SOR || s.fn)); return u;
  }
  V add(size_t l, const V& b) { if (l + 1 == lv.size()) return solveCoarse(b); Level& L = lv[l]; V u = smooth(L, s, b, false), c = L.prolong(add(l + 1, L.restrict_(b))); for (size_t i = 0; i < u.size(); ++i) u[i] += c[i]; return u; }
  V operator()(const V& b) { return additive ? add(0, b) : run(0, b); }
};
}
// problems whose direct and smoothing solves are all well posed
inline double e2(double x) { return std::abs(x); } template<class B> inline double e2(const B& b) { return b.frobenius_norm(); }
template<class B> inline Sp<B> dominant(vh::Rng& g, size_t maxN, std::string& kind, bool sym = false) { auto s = problem<B>(g, maxN, true, kind, sym); double f = g.pick({1.02, 1.2}); for (size_t i = 0; i < s.N; ++i) s.v[{i, i}] *= f; double mx = 0; for (auto& e : s.v) mx = std::max(mx, e2(e.second)); for (size_t i = 0; i < s.N; ++i) { auto& d = s.v[{i, i}]; double k = e2(d); if (k < 1e-5 * mx) d *= 1e-5 * mx / k; } return s; }
