// C01: assembly of BCRSMatrix yields exactly the requested pattern and entries; misuse throws.
#include "ref.hh"
#include <dune/istl/matrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
using namespace ref; using namespace vh;
template<class B> using M_ = Dune::BCRSMatrix<B>;
typedef Dune::FieldMatrix<double, 2, 3> F23; typedef Dune::FieldMatrix<double, 1, 1> F11; typedef Dune::FieldMatrix<std::complex<double>, 2, 2> C22;

template<class B> void anyMode(Case& c) {
  Rng& g = c.rng; auto s = Sp<B>::rnd(g, c.thorough ? 24 : 12); int mode = g.range(0, NModes - 1);
  c.note(str(modeName(mode), " ", s.text())); M_<B> A; build(A, s, g, mode);
  std::string d = compare(A, s); c.check(d.empty(), str("mode-", modeName(mode)), d);
  auto D = A; d = compare(D, s); c.check(d.empty(), str("copy-of-", modeName(mode)), d);
  // overwrite in place through iterators and rebuild the same object in another mode
  auto s2 = Sp<B>::rnd(g, 10); int m2 = g.range(0, NModes - 1); c.add(str(" then rebuilt ", modeName(m2), " ", s2.text()));
  A.setSize(0, 0); M_<B> E; build(E, s2, g, m2); d = compare(E, s2); c.check(d.empty(), str("mode-", modeName(m2)), d);
  if (s.v.size()) c.sig(str(modeName(mode), "/", s.kind, "/", s.N, "x", s.M, "/", s.v.size(), "/", sizeof(B)));
}
VGROUP("mode-double", 400*4, 8000*10) { anyMode<double>(c); }
VGROUP("mode-f23", 250*4, 5000*10) { anyMode<F23>(c); }
VGROUP("mode-f11", 250*4, 5000*10) { anyMode<F11>(c); }
VGROUP("mode-complex", 150*4, 3000*10) { anyMode<C22>(c); }

// rebuild the very same object, with different modes, without any intermediate destruction
VGROUP("rebuild-same-object", 250*4, 5000*10) {
  Rng& g = c.rng; M_<double> A; long steps = g.range(2, 5);
  for (long t = 0; t < steps; ++t) {
    auto s = Sp<double>::rnd(g, 9); int mode = g.range(0, NModes - 1); c.add(str(modeName(mode), ":", s.text(), "; "));
    bool fresh = A.buildStage() == M_<double>::notAllocated;
    if (!fresh) { // a built matrix only accepts setSize, after which the mode may be switched between row_wise and random
      auto bm = A.buildMode();
      if (bm == M_<double>::implicit) { mode = Implicit; size_t mx = 1; for (auto& r : s.p) mx = std::max(mx, r.size());
        // implicit parameters stay: use only patterns that are certain to fit
        A.setSize(s.N, s.M);
        std::vector<std::pair<size_t, size_t>> e; for (auto& x : s.v) e.push_back(x.first); g.shuffle(e);
        try { for (auto& x : e) A.entry(x.first, x.second) = s.v[x]; A.compress(); }
        catch (const Dune::ImplicitModeCompressionBufferExhausted&) { c.sig("exhausted-on-rebuild"); A.setSize(1, 1); A.entry(0, 0) = 5; A.compress(); Sp<double> o; o.N = o.M = 1; o.p = {{0}}; o.v[{0, 0}] = 5; auto d = compare(A, o); c.check(d.empty(), "after-exhausted", d); continue; }
        auto d = compare(A, s); c.check(d.empty(), "rebuild-implicit", d); continue; }
      if (mode == Implicit || mode == IdxSet) mode = RowKnown;
      A.setSize(s.N, s.M, nnz(s.p));
      A.setBuildMode(mode == RowKnown || mode == RowUnknown ? M_<double>::row_wise : M_<double>::random);
      if (mode == RowKnown || mode == RowUnknown) for (auto it = A.createbegin(); it != A.createend(); ++it) for (auto j : s.p[it.index()]) it.insert(j);
      else { for (size_t i = 0; i < s.N; ++i) A.setrowsize(i, s.p[i].size()); A.endrowsizes(); for (auto& x : s.v) A.addindex(x.first.first, x.first.second); A.endindices(); }
      setValues(A, s);
    } else build(A, s, g, mode);
    auto d = compare(A, s); if (!c.check(d.empty(), str("rebuild-", modeName(mode)), d)) return;
  }
  c.sig(c.desc.substr(0, 200));
}

// random mode with over-estimated row sizes: the matrix must be exactly the inserted one and stay so under copies
VGROUP("random-oversized", 300*4, 6000*10) {
  Rng& g = c.rng; auto s = Sp<double>::rnd(g, 9); M_<double> A; long extra = 0; c.note(s.text());
  A.setBuildMode(M_<double>::random); std::vector<size_t> sz(s.N); size_t tot = 0; for (size_t i = 0; i < s.N; ++i) { long e = g.coin(0.4) ? g.range(1, 3) : 0; extra += e; sz[i] = s.p[i].size() + e; tot += sz[i]; }
  bool given = g.coin(); if (given) A.setSize(s.N, s.M, tot + (g.coin() ? g.range(0, 4) : 0)); else A.setSize(s.N, s.M);
  for (size_t i = 0; i < s.N; ++i) A.setrowsize(i, sz[i]);
  A.endrowsizes(); for (auto& x : s.v) A.addindex(x.first.first, x.first.second); A.endindices(); setValues(A, s);
  auto d = compare(A, s); if (!c.check(d.empty(), given ? "oversized-nnz-given" : "oversized", d)) return;
  { M_<double> B(A); d = compare(B, s); c.check(d.empty(), "oversized-copy", d); for (auto& r : B) for (auto& e : r) e = -7; d = compare(A, s); c.check(d.empty(), "oversized-source-after-copy", d);
    M_<double> C; C = A; d = compare(C, s); c.check(d.empty(), "oversized-assign", d); d = compare(A, s); c.check(d.empty(), "oversized-source-after-assign", d); }
  d = compare(A, s); c.check(d.empty(), "oversized-source-after-copy-destroyed", d);
  if (extra) c.sig(str(s.N, s.kind, extra, given));
}

// implicit mode: arbitrary averages/overflow; either compress() throws or the matrix is exact; must not throw when the reserve suffices
template<class B> void implicitAny(Case& c) {
  Rng& g = c.rng; auto s = Sp<B>::rnd(g, 12); size_t avg = g.range(0, 6); double f = g.pick({0.0, 0.05, 0.1, 0.5, 1.0, 2.0, 5.0});
  bool ctor = g.coin(); M_<B> A0; M_<B>* A = &A0; M_<B> A1(ctor ? s.N : 0, ctor ? s.M : 0, avg, f, M_<B>::implicit);
  c.note(str("avg=", avg, " f=", f, " ", s.text()));
  if (ctor) A = &A1; else { A0.setBuildMode(M_<B>::implicit); A0.setImplicitBuildModeParameters(avg, f); A0.setSize(s.N, s.M); }
  std::vector<std::pair<size_t, size_t>> e; for (auto& x : s.v) e.push_back(x.first); g.shuffle(e);
  std::map<std::pair<size_t, size_t>, B> v2 = s.v; std::vector<size_t> cnt(s.N); size_t over = 0;
  for (auto& x : e) { if (cnt[x.first] == avg) ++over; else ++cnt[x.first]; A->entry(x.first, x.second) = s.v[x]; if (g.coin(0.3)) { // accumulate on a random already inserted entry
      auto& y = e[g.range(0, &x - &e[0])]; A->entry(y.first, y.second) += s.v[y]; v2[y] += s.v[y]; } }
  if (ctor && g.coin(0.3)) { Dune::ImplicitMatrixBuilder<M_<B>> b(A1); for (auto& x : e) if (g.coin(0.3)) { b[x.first][x.second] += s.v[x]; v2[x] += s.v[x]; } }
  s.v = v2; bool must = over <= size_t(size_t(s.N * avg) * f) && avg > 0;
  typename M_<B>::CompressionStatistics st; bool thrown = false;
  try { st = A->compress(); } catch (const Dune::ImplicitModeCompressionBufferExhausted&) { thrown = true; }
  c.check(!(thrown && must), "compress-throws-although-reserve-suffices", str("overflow ", over));
  if (!thrown) { auto d = compare(*A, s); c.check(d.empty(), "implicit", d);
    if (s.N) { size_t mx = 0; for (auto& r : s.p) mx = std::max(mx, r.size()); c.check(st.maximum == mx, "stat-maximum", str(st.maximum)); c.check(std::abs(st.avg - double(s.v.size()) / s.N) < 1e-12, "stat-avg"); c.check(st.overflow_total == over, "stat-overflow");
      if (avg > 0) { double al = double(s.N) * avg, r = s.v.size(); c.check(st.mem_ratio * al <= r * (1 + 1e-12) && st.mem_ratio * (al * (1 + f) + 8 * avg + 8) >= r * (1 - 1e-12), "stat-mem-ratio", str(st.mem_ratio, " stored ", r, " rows*avg ", al, " overflow ", f)); } } }
  else { // the object must remain usable: rebuild from scratch with a small pattern
    A->setSize(2, 2); if (avg) { A->entry(1, 0) = B(3.0); A->entry(0, 1) = B(2.0); A->compress(); Sp<B> o; o.N = o.M = 2; o.p = {{1}, {0}}; o.v[{0, 1}] = B(2.0); o.v[{1, 0}] = B(3.0); auto d = compare(*A, o); c.check(d.empty(), "reuse-after-exhausted", d); } }
  c.sig(str(avg, "/", f, "/", thrown, "/", over, "/", s.v.size()));
}
VGROUP("implicit-double", 500*4, 10000*10) { implicitAny<double>(c); }
VGROUP("implicit-f23", 250*4, 5000*10) { implicitAny<F23>(c); }

// abandon an implicit build half way and start over: nothing of the first build may survive
VGROUP("implicit-restart", 150*4, 3000*10) {
  Rng& g = c.rng; auto s0 = Sp<double>::rndNM(g, g.range(1, 8), g.range(1, 8)), s = Sp<double>::rndNM(g, g.range(1, 8), g.range(1, 8)); size_t avg = g.range(1, 3);
  c.note(s0.text() + " -> " + s.text());
  M_<double> A; A.setBuildMode(M_<double>::implicit); A.setImplicitBuildModeParameters(avg, 12.0); A.setSize(s0.N, s0.M); for (auto& x : s0.v) A.entry(x.first.first, x.first.second) = 99;
  A.setSize(s.N, s.M); for (auto& x : s.v) A.entry(x.first.first, x.first.second) = x.second; A.compress(); auto d = compare(A, s); c.check(d.empty(), "restart", d); if (s0.v.size() > avg) c.sig(c.desc);
}

// build-phase protocol: every call that is out of order must throw and leave the object usable
VGROUP("protocol", 500*4, 10000*10) {
  Rng& g = c.rng; typedef M_<double> Mt; size_t N = g.range(1, 5), M = g.range(1, 5); Mt A; int stage = 0; // 0 notAllocated 1 building 2 rowSizes 3 built
  int mode = -1; // -1 unknown 0 row 1 random 2 implicit
  bool par = false; size_t cap = 0; long ops = g.range(3, 14); std::vector<std::set<size_t>> p(N); std::vector<size_t> rs(N, 0); size_t avg = 2; std::map<std::pair<size_t, size_t>, double> val; long threw = 0;
  auto expect = [&](bool ok, const char* what, auto&& f) { bool t = false; try { f(); } catch (const Dune::Exception&) { t = true; } c.add(str(what, t ? "! " : " ")); threw += t; return c.check(ok == !t, str(what, ok ? "-rejected" : "-accepted"), str("stage ", stage, " mode ", mode)); };
  for (long o = 0; o < ops; ++o) switch (g.range(0, 10)) {
    case 0: { int nm = g.range(0, 2); auto bm = nm == 0 ? Mt::row_wise : nm == 1 ? Mt::random : Mt::implicit; bool ok = stage == 0 || (stage == 1 && mode != 2 && nm != 2);
      if (!expect(ok, "setBuildMode", [&] { A.setBuildMode(bm); })) return; if (ok) mode = nm; break; }
    case 1: { bool ok = stage == 0; double f = g.coin(0.2) ? -1.0 : 8.0; if (!expect(ok && f >= 0, "setImplicitParams", [&] { A.setImplicitBuildModeParameters(avg, f); })) return; if (ok && f >= 0) par = true; break; }
    case 2: { if (g.coin(0.6) && stage == 3) break; size_t nz = g.coin(0.3) ? g.range(1, 20) : 0; bool ok = mode != 2 || (par && nz == 0); if (!expect(ok, "setSize", [&] { A.setSize(N, M, nz); })) return;
      p.assign(N, {}); rs.assign(N, 0); val.clear(); stage = ok ? 1 : 0; cap = nz; if (!ok) { return; }
      if (nz) { // keep the model simple: known nnz only used with a full row-size declaration later
        if (mode == 1) { size_t left = nz; for (size_t i = 0; i < N; ++i) { size_t k = std::min<size_t>(left, g.range(0, M)); left -= k; A.setrowsize(i, k); rs[i] = k; } } else return; } break; }
    case 3: { size_t i = g.range(0, N - 1), k = g.range(0, M); bool ok = stage == 1 && mode == 1; if (!expect(ok, "setrowsize", [&] { A.setrowsize(i, k); })) return; if (ok) rs[i] = k; 
      if (ok && stage == 1) { size_t t = 0; for (auto r : rs) t += r; (void)t; } break; }
    case 4: { bool ok = stage == 1 && mode == 1; bool t = false; try { A.endrowsizes(); } catch (const Dune::BCRSMatrixError&) { t = true; } c.add("endrowsizes "); if (!ok) c.check(t, "endrowsizes-accepted", str("stage ", stage, " mode ", mode)); if (ok && t) { threw++; return; } if (ok) stage = 2; break; }
    case 5: case 6: { size_t i = g.range(0, N - 1), j = g.range(0, M + 1); bool ok = mode == 1 && stage == 2 && j < M && (p[i].count(j) || p[i].size() < rs[i]); if (!expect(ok, "addindex", [&] { A.addindex(i, j); })) return; if (ok) p[i].insert(j); break; }
    case 7: { bool ok = mode == 1 && stage == 2; if (!expect(ok, "endindices", [&] { A.endindices(); })) return; if (ok) { stage = 3; for (size_t i = 0; i < N; ++i) for (auto j : p[i]) val[{i, j}] = A[i][j] = 1 + 10 * i + j; } break; }
    case 8: { bool ok = mode == 2 && stage == 1; if (ok) for (int k = 0; k < 3; ++k) { size_t i = g.range(0, N - 1), j = g.range(0, M - 1); p[i].insert(j); A.entry(i, j) = val[{i, j}] = 1 + 10 * i + j; } break; }
    case 9: { bool ok = mode == 2 && stage == 1; if (!expect(ok, "compress", [&] { A.compress(); })) return; if (ok) stage = 3; break; }
    case 10: { bool ok = stage == 1 && (mode == 0 || mode == -1); bool t = false; try { auto it = A.createbegin(); if (ok) { mode = 0; p.assign(N, {}); for (auto e = A.createend(); it != e; ++it) { size_t j = g.range(0, M - 1); it.insert(j); p[it.index()].insert(j); } stage = 3; for (size_t i = 0; i < N; ++i) for (auto j : p[i]) val[{i, j}] = A[i][j] = 1 + 10 * i + j; } } catch (const Dune::Exception&) { t = true; } c.add("create "); if (ok && cap && cap < N) { c.check(t, "create-beyond-reserve-accepted", str(cap)); return; } if (!c.check(t == !ok, ok ? "create-rejected" : "create-accepted", str("stage ", stage, " mode ", mode))) return; break; }
  }
  if (stage == 3) { Sp<double> s; s.N = N; s.M = M; s.p = p; s.v = val; auto d = compare(A, s); c.check(d.empty(), "protocol-result", d); }
  else { // copies of unfinished matrices are rejected, the unfinished matrix can be dropped
    bool t = false; try { Mt B(A); } catch (const Dune::InvalidStateException&) { t = true; } if (stage != 0) c.check(t, "copy-of-unfinished-accepted"); t = false; Mt C; try { C = A; } catch (const Dune::InvalidStateException&) { t = true; } if (stage != 0) c.check(t, "assign-of-unfinished-accepted"); }
  c.sig(str(stage, mode, threw, c.desc.substr(0, 120)));
}

// capacity violations
VGROUP("capacity", 300*4, 6000*10) {
  Rng& g = c.rng; typedef M_<double> Mt; auto s = Sp<double>::rndNM(g, g.range(2, 8), g.range(2, 8)); size_t nz = nnz(s.p); int k = g.range(0, 4); c.note(str("kind ", k, " ", s.text()));
  auto throws = [&](auto&& f) { try { f(); } catch (const Dune::BCRSMatrixError&) { return true; } return false; };
  if (k == 0 && nz > 1) { Mt A(s.N, s.M, nz - g.range(1, nz - 1), Mt::row_wise); bool t = throws([&] { for (auto it = A.createbegin(); it != A.createend(); ++it) for (auto j : s.p[it.index()]) it.insert(j); }); c.check(t, "rowwise-nnz-too-small"); c.sig("rw"); }
  else if (k == 1 && nz > 1) { Mt A(s.N, s.M, nz - g.range(1, nz - 1), Mt::random); for (size_t i = 0; i < s.N; ++i) A.setrowsize(i, s.p[i].size()); c.check(throws([&] { A.endrowsizes(); }), "random-nnz-too-small"); c.sig("rnd"); }
  else if (k == 2) { Mt A(s.N, s.M, Mt::random); for (size_t i = 0; i < s.N; ++i) A.setrowsize(i, s.p[i].size()); A.endrowsizes(); for (auto& x : s.v) A.addindex(x.first.first, x.first.second);
    for (size_t i = 0; i < s.N; ++i) if (s.p[i].size() < s.M) { size_t j = 0; while (s.p[i].count(j)) ++j; c.check(throws([&] { A.addindex(i, j); }), "row-too-small-accepted"); c.sig(str("row", i, s.p[i].size())); }
    c.check(throws([&] { A.addindex(0, s.M + g.range(0, 3)); }), "column-out-of-range-accepted"); A.endindices(); setValues(A, s); auto d = compare(A, s); c.check(d.empty(), "after-rejected-index", d); }
  else { // setIndices with a wrong number of entries must throw without touching other rows or foreign memory
    Mt A(s.N, s.M, Mt::random); for (size_t i = 0; i < s.N; ++i) A.setrowsize(i, s.p[i].size()); A.endrowsizes();
    for (size_t i = 0; i < s.N; ++i) A.setIndices(i, s.p[i].begin(), s.p[i].end());
    size_t i = g.coin() ? s.N - 1 : g.range(0, s.N - 1); std::vector<size_t> w; size_t len = s.p[i].size(); if (k == 3 || len == 0) len += g.range(1, 6); else len -= 1; for (size_t t = 0; t < len; ++t) w.push_back(t % s.M);
    bool sort = g.coin(); c.check(throws([&] { if (sort) A.setIndices(i, w.begin(), w.end()); else A.setIndicesNoSort(i, w.begin(), w.end()); }), "setIndices-wrong-count-accepted");
    A.setIndices(i, s.p[i].begin(), s.p[i].end()); A.endindices(); setValues(A, s); auto d = compare(A, s); c.check(d.empty(), "after-rejected-setIndices", d); c.sig(str("si", k, i, len, s.p[i].size())); }
}

// block diagonal / tridiagonal matrices
VGROUP("bd-btd", 200*4, 4000*10) {
  Rng& g = c.rng; size_t n = g.range(0, 9); typedef Dune::FieldMatrix<double, 2, 2> B; c.note(str("n=", n));
  auto mk = [&](bool tri) { Pattern p(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i == j || (tri && (i + 1 == j || j + 1 == i))) p[i].insert(j); return Sp<B>::make(g, n, n, p, [](Rng& r) { return smallInt<double>(r); }); };
  { auto s = mk(false); Dune::BDMatrix<B> A(n); setValues(A, s); auto d = compare(A, s); c.check(d.empty(), "bd", d); Dune::BDMatrix<B> C(A); d = compare(C, s); c.check(d.empty(), "bd-copy", d); size_t k = g.range(0, 6); n = k; auto s2 = mk(false); { A.setSize(k); setValues(A, s2); d = compare(A, s2); c.check(d.empty(), "bd-setSize", d); d = compare(C, s); c.check(d.empty(), "bd-copy-after-setSize", d); } }
  n = g.range(0, 9);
  { auto s = mk(true); Dune::BTDMatrix<B> A(n); setValues(A, s); auto d = compare(A, s); c.check(d.empty(), "btd", d); size_t k = g.range(0, 6); n = k; auto s2 = mk(true); A.setSize(k); setValues(A, s2); d = compare(A, s2); c.check(d.empty(), "btd-setSize", d); }
  { Dune::BTDMatrix<B> A; n = g.range(0, 4); auto s2 = mk(true); A.setSize(n); setValues(A, s2); auto d = compare(A, s2); c.check(d.empty(), "btd-default-setSize", d); }
  { Dune::BDMatrix<B> A; n = g.range(0, 4); auto s2 = mk(false); A.setSize(n); setValues(A, s2); auto d = compare(A, s2); c.check(d.empty(), "bd-default-setSize", d); }
  c.sig(c.desc + str(n));
}
VGROUP("bd-initlist", 20*4, 100*10) { Dune::BDMatrix<double> A{3., 4., 5.}; c.check(A.N() == 3 && A.M() == 3 && A[0][0] == 3 && A[1][1] == 4 && A[2][2] == 5 && A.nonzeroes() == 3, "initlist"); c.sig("initlist"); }
