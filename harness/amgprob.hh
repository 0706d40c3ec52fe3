// Random test problems for the multigrid checks
#pragma once
#include "ref.hh"
using namespace ref; using vh::str; using Dune::FieldVector; using Dune::FieldMatrix; using Dune::BCRSMatrix; using Dune::BlockVector;
// structurally symmetric test problems with a full diagonal; Dirichlet rows keep their pattern with zero couplings
template<class B> static Sp<B> problem(vh::Rng& g, size_t maxN, bool mmatrix, std::string& kind, bool onlySym = false) {
  constexpr int n = Blk<B>::n; Pattern p; size_t N; std::vector<std::pair<size_t, size_t>> dir; long k = g.range(0, 6);
  auto grid = [&](size_t w, size_t h, bool nine) { N = w * h; p.assign(N, {}); for (size_t y = 0; y < h; ++y) for (size_t x = 0; x < w; ++x) { size_t i = y * w + x; p[i].insert(i); for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) { if (!nine && dx && dy) continue; long X = long(x) + dx, Y = long(y) + dy; if (X >= 0 && Y >= 0 && X < long(w) && Y < long(h)) p[i].insert(Y * w + X); } } };
  if (k <= 1) { size_t w = g.range(1, 16), h = g.range(1, std::max<long>(1, maxN / w)); h = std::min<size_t>(h, 16); grid(w, h, k == 1); kind = k ? "grid9" : "grid5"; }
  else if (k <= 4) { N = g.range(1, maxN); p = symPattern(g, N, &kind); }
  else if (k == 5) { N = g.range(1, maxN); p.assign(N, {}); for (size_t i = 0; i < N; ++i) p[i].insert(i); size_t cl = g.range(1, 6); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (i / cl == j / cl) p[i].insert(j); kind = "clusters"; }
  else { N = g.range(1, maxN); p.assign(N, {}); for (size_t i = 0; i < N; ++i) p[i].insert(i); if (g.coin()) for (size_t i = 0; i + 1 < N; i += 2) { p[i].insert(i + 1); p[i + 1].insert(i); } kind = "diagonal"; }
  if (g.coin(0.3)) { std::vector<size_t> perm(N); for (size_t i = 0; i < N; ++i) perm[i] = i; g.shuffle(perm); Pattern q(N); for (size_t i = 0; i < N; ++i) for (auto j : p[i]) q[perm[i]].insert(perm[j]); p = q; kind += "-perm"; }
  double aniso = g.pick({1.0, 1.0, 1e-2, 1e-6}); bool sym = onlySym || g.coin(0.6), rnd = g.coin(0.4), pos = !mmatrix && g.coin(0.3);
  Sp<B> s; s.N = s.M = N; s.p = p; auto coef = [&](size_t i, size_t j) { double v = std::abs(long(i) - long(j)) == 1 ? 1.0 : aniso; if (rnd) v *= g.real(0.2, 1); if (pos && g.coin(0.3)) v = -v; return -v; };
  std::map<std::pair<size_t, size_t>, double> a;
  for (size_t i = 0; i < N; ++i) for (auto j : p[i]) if (i != j) { if (sym && j < i) a[{i, j}] = a[{j, i}]; else a[{i, j}] = coef(i, j); }
  std::vector<char> isd(N, 0); if (!onlySym && g.coin(0.4)) for (size_t i = 0; i < N; ++i) if (g.coin(0.1)) isd[i] = 1;
  for (auto& e : a) if (isd[e.first.first]) e.second = 0;
  bool weak = g.coin(0.2); if (weak) for (auto& e : a) if (g.coin(0.2)) { e.second *= 1e-9; if (onlySym) a[{e.first.second, e.first.first}] = e.second; }
  std::vector<double> d(N, g.pick({0.0, 0.1, 1.0})); for (auto& e : a) d[e.first.first] += std::abs(e.second); for (auto& x : d) if (x == 0) x = 1;
  for (size_t i = 0; i < N; ++i) a[{i, i}] = d[i];
  for (auto& e : a) { B b(0.0); if constexpr (Dune::IsNumber<B>::value) b = e.second; else for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) b[r][c] = r == c ? e.second * (r ? 0.9 : 1.0) : (e.second == 0 ? 0 : 0.05 * e.second * ((r + c) % 2 ? 1 : -1) * (onlySym ? 1 : (r < c ? 1 : -1))); s.v[e.first] = b; }
  kind += str(sym ? "" : "-unsym", rnd ? "-rand" : "", pos ? "-pos" : "", weak ? "-weak" : "", aniso != 1 ? "-aniso" : "", std::count(isd.begin(), isd.end(), 1) ? "-dirichlet" : ""); s.kind = kind; return s;
}
// random aggregation parameters
template<class C> static void parameters(vh::Rng& g, C& cr, std::string& txt, double& alpha, double& beta) {
  size_t mn = g.range(1, 8), mx = mn + g.range(0, 6), dist = g.range(1, 5), con = g.pick({1, 3, 15, 50}); alpha = 1.0 / 3; beta = 1e-5; bool dflt = g.coin(0.3);
  if (!dflt) { cr.setMinAggregateSize(mn); cr.setMaxAggregateSize(mx); cr.setMaxDistance(dist); cr.setMaxConnectivity(con); if (g.coin(0.4)) { alpha = g.pick({0.0, 0.1, 0.67, 0.9}); cr.setAlpha(alpha); } if (g.coin(0.3)) { beta = g.pick({1e-12, 1e-3, 0.1, 0.5}); cr.setBeta(beta); } }
  else if (g.coin(0.5)) { if (g.coin()) cr.setDefaultValuesIsotropic(g.range(1, 3), g.range(2, 3)); else cr.setDefaultValuesAnisotropic(g.range(1, 3)); }
  cr.setSkipIsolated(g.coin(0.3)); cr.setDebugLevel(0); txt = str(" min=", cr.minAggregateSize(), " max=", cr.maxAggregateSize(), " dist=", cr.maxDistance(), " alpha=", alpha, " beta=", beta, cr.skipIsolated() ? " skip" : "");
}
