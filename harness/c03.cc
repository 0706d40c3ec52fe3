// C03: histories of lifecycle operations over several live matrices; deep-copy independence and storage hygiene.
#include "ref.hh"
#include "track.hh"
#include <memory>
#include <dune/istl/matrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
using namespace ref; using namespace vh;
typedef Dune::FieldMatrix<double, 2, 2> F22;
template<class B> using TM = Dune::BCRSMatrix<B, track::Alloc<B>>;

// model of one matrix object: built (with Sp) / empty / unfinished
template<class B> struct Obj { std::unique_ptr<TM<B>> m; Sp<B> s; int st = 0; /*0 never sized, 1 built, 2 unfinished*/ bool everImplicit = false; };

template<class B> void history(Case& c) {
  Rng& g = c.rng; using K = typename Blk<B>::K; typedef TM<B> Mt; track::error().clear(); track::live().clear(); size_t heap0 = 0;
  {
    std::vector<Obj<B>> o(4); for (auto& x : o) x.m = std::make_unique<Mt>(); long steps = g.range(4, c.thorough ? 40 : 22); std::string tr;
    auto verify = [&](size_t k, const char* after) { if (o[k].st != 1) return true; auto d = compare(*o[k].m, o[k].s); return c.check(d.empty(), std::string("state-after-") + after, d); };
    for (long t = 0; t < steps; ++t) {
      size_t i = g.range(0, 3), j = g.range(0, 3); Obj<B>&a = o[i], &b = o[j]; const char* nm = "";
      switch (g.range(0, 13)) {
        case 0: case 1: { nm = "rebuild"; a.m = std::make_unique<Mt>(); a.s = Sp<B>::rnd(g, 7); int mode = build(*a.m, a.s, g); tr += modeName(mode); a.st = 1; break; }
        case 2: { nm = "copy-construct"; if (b.st == 2) { bool t = false; try { Mt X(*b.m); } catch (const Dune::InvalidStateException&) { t = true; } c.check(t, "copy-of-unfinished-accepted"); break; } auto p = std::make_unique<Mt>(*b.m); a.m = std::move(p); if (i != j) { a.s = b.s; a.st = b.st; if (b.st == 0) { a.s = Sp<B>(); a.st = 3; } } else if (a.st == 0) a.st = 3; break; }
        case 3: case 4: { nm = "copy-assign"; bool ok = a.st != 2 && b.st != 2; bool t = false; try { *a.m = *b.m; } catch (const Dune::InvalidStateException&) { t = true; } if (i == j) break; c.check(t == !ok, ok ? "assign-rejected" : "assign-unfinished-accepted"); if (ok) { a.s = b.s; a.st = b.st == 0 ? 3 : b.st; if (b.st == 0) a.s = Sp<B>(); } break; }
        case 5: { nm = "write"; if (a.st != 1) break; for (auto& e : a.s.v) if (g.coin(0.4)) { DM<K> tmp(Blk<B>::n, Blk<B>::m); e.second = Blk<B>::make(g, tmp, 0, 0, [](Rng& r) { return smallInt<K>(r, 50); }); (*a.m)[e.first.first][e.first.second] = e.second; } break; }
        case 6: { nm = "scale"; if (a.st != 1) break; *a.m *= K(-1); for (auto& e : a.s.v) e.second *= K(-1); break; }
        case 7: { nm = "add"; if (a.st != 1 || b.st != 1 || a.s.p != b.s.p || a.s.M != b.s.M) break; *a.m += *b.m; auto other = b.s.v; for (auto& e : a.s.v) e.second += other[e.first]; if (i == j) {} break; }
        case 8: { nm = "assign-scalar"; if (a.st != 1) break; *a.m = K(7); for (auto& e : a.s.v) e.second = K(7); break; }
        case 9: { nm = "setSize-abandon"; if (a.st == 2 && a.m->buildMode() == Mt::implicit) break; bool imp = a.m->buildMode() == Mt::implicit; size_t N = g.range(1, 6), M = g.range(1, 6); a.m->setSize(N, M, imp ? 0 : (g.coin() ? g.range(1, 12) : 0)); a.st = 2;
          if (!imp && g.coin()) { a.m->setBuildMode(Mt::random); bool zero = a.m->nonzeroes() == 0; (void)zero; for (size_t r = 0; r < N; ++r) a.m->setrowsize(r, g.range(0, 1)); if (g.coin()) { try { a.m->endrowsizes(); } catch (const Dune::BCRSMatrixError&) {} } }
          else if (!imp) { a.m->setBuildMode(Mt::row_wise); long stop = g.range(0, N - 1); try { auto e = a.m->createend(); for (auto it = a.m->createbegin(); it != e && (long)it.index() < stop; ++it) for (long q = g.range(0, 3); q > 0; --q) it.insert(g.range(0, M - 1)); } catch (const Dune::BCRSMatrixError&) {} }
          else { for (int q = 0; q < 5; ++q) { auto& en = a.m->entry(g.range(0, N - 1), g.range(0, M - 1)); if constexpr (Dune::IsNumber<B>::value || requires { en = 0.0; }) en = 1.0; } }
          break; }
        case 10: { nm = "resize-rebuild"; if (a.st == 0 || a.st == 3) break; a.s = Sp<B>::rnd(g, 6); size_t nz = nnz(a.s.p); if (a.m->buildMode() == Mt::implicit) { try { a.m->setSize(a.s.N, a.s.M); for (auto& e : a.s.v) a.m->entry(e.first.first, e.first.second) = e.second; a.m->compress(); a.st = 1; } catch (const Dune::ImplicitModeCompressionBufferExhausted&) { a.st = 2; } }
          else { a.m->setSize(a.s.N, a.s.M, g.coin() ? nz : 0); a.m->setBuildMode(Mt::row_wise); for (auto it = a.m->createbegin(); it != a.m->createend(); ++it) for (auto q : a.s.p[it.index()]) it.insert(q); setValues(*a.m, a.s); a.st = 1; } break; }
        case 11: { nm = "destroy"; a.m = std::make_unique<Mt>(); a.st = 0; a.s = Sp<B>(); break; }
        case 12: { nm = "query"; if (a.st == 1) { c.check(a.m->nonzeroes() == a.s.v.size(), "nonzeroes"); c.check(a.m->N() == a.s.N && a.m->M() == a.s.M, "dims"); } break; }
        case 13: { nm = "std-swap"; if (a.st == 2 || b.st == 2 || i == j || a.st != 1 || b.st != 1) break; std::swap(*a.m, *b.m); std::swap(a.s, b.s); break; }
      }
      tr += str(nm, i, j, " "); c.note(tr); bool ok = true; for (size_t k = 0; k < 4 && ok; ++k) ok = verify(k, nm);
      ok = c.check(track::error().empty(), std::string("storage-after-") + nm, track::error()) && ok; if (!ok) break;
    }
    c.sig(tr);
  }
  (void)heap0; c.check(track::error().empty(), "storage-at-end", track::error()); c.check(track::live().empty(), "leak", str(track::live().size(), " blocks not released")); track::live().clear();
}
VGROUP("bcrs-double", 1500, 60000) { history<double>(c); }
VGROUP("bcrs-f22", 800, 30000) { history<F22>(c); }

// nested: inner matrices own memory themselves
typedef TM<F22> InM; typedef TM<InM> OutM;
VGROUP("bcrs-nested", 600, 20000) {
  Rng& g = c.rng; track::error().clear(); track::live().clear(); typedef std::map<std::pair<size_t, size_t>, Sp<F22>> Vals; struct Ob { std::unique_ptr<OutM> m; Pattern p; size_t N = 0, M = 0; Vals v; int st = 0; };
  {
    std::vector<Ob> o(3); for (auto& x : o) x.m = std::make_unique<OutM>(); std::string tr; long steps = g.range(3, 14);
    auto verify = [&](Ob& a, const char* nm) { if (a.st != 1) return true; if (!c.check(a.m->N() == a.N && a.m->nonzeroes() == a.v.size(), str("nested-shape-after-", nm))) return false; size_t k = 0; for (auto i = a.m->begin(); i != a.m->end(); ++i) for (auto j = i->begin(); j != i->end(); ++j, ++k) { auto it = a.v.find({i.index(), j.index()}); if (it == a.v.end()) { c.fail(str("nested-pattern-after-", nm), ""); return false; } auto d = compare(*j, it->second); if (!c.check(d.empty(), str("nested-block-after-", nm), d)) return false; } return c.check(k == a.v.size(), str("nested-count-after-", nm)); };
    for (long t = 0; t < steps; ++t) {
      size_t i = g.range(0, 2), j = g.range(0, 2); Ob &a = o[i], &b = o[j]; const char* nm = "";
      switch (g.range(0, 6)) {
        case 0: case 1: { nm = "build"; a.m = std::make_unique<OutM>(); Sp<double> sp; sp.N = a.N = g.range(0, 4); sp.M = a.M = g.range(1, 4); sp.p = a.p = randPattern(g, a.N, a.M); a.v.clear(); int mode = g.range(0, NModes - 1); buildPattern(*a.m, sp, g, mode); for (size_t r = 0; r < a.N; ++r) for (auto q : a.p[r]) { a.v[{r, q}] = Sp<F22>::rnd(g, 3); InM fresh; build(fresh, a.v[{r, q}], g); (*a.m)[r][q] = fresh; } a.st = 1; tr += modeName(mode); break; }
        case 2: { nm = "copy"; if (b.st != 1) break; auto p = std::make_unique<OutM>(*b.m); a.m = std::move(p); if (i != j) { a.p = b.p; a.N = b.N; a.M = b.M; a.v = b.v; a.st = 1; } break; }
        case 3: { nm = "assign"; if (a.st == 2 || b.st != 1) break; *a.m = *b.m; if (i != j) { a.p = b.p; a.N = b.N; a.M = b.M; a.v = b.v; a.st = 1; } break; }
        case 4: { nm = "write"; if (a.st != 1) break; for (auto& e : a.v) if (g.coin()) { e.second = Sp<F22>::rnd(g, 3); InM fresh; build(fresh, e.second, g); (*a.m)[e.first.first][e.first.second] = fresh; } break; }
        case 5: { nm = "abandon"; if (a.m->buildMode() == OutM::implicit) break; a.m->setSize(3, 3, g.coin() ? 9 : 0); a.st = 2; if (g.coin()) { a.m->setBuildMode(OutM::random); for (int r = 0; r < 3; ++r) a.m->setrowsize(r, g.range(0, 2)); if (g.coin()) a.m->endrowsizes(); } break; }
        case 6: { nm = "scale"; if (a.st != 1) break; *a.m *= 2.0; for (auto& e : a.v) for (auto& f : e.second.v) f.second *= 2.0; break; }
      }
      tr += str(nm, i, j, " "); c.note(tr); bool ok = true; for (auto& x : o) ok = ok && verify(x, nm); ok = c.check(track::error().empty(), str("storage-after-", nm), track::error()) && ok; if (!ok) break;
    }
    c.sig(tr);
  }
  c.check(track::error().empty(), "storage-at-end", track::error()); c.check(track::live().empty(), "leak", str(track::live().size(), " blocks")); track::live().clear();
}

// dense block matrix and the (tri)diagonal matrices
template<class B> void denseHist(Case& c) {
  Rng& g = c.rng; typedef Dune::Matrix<B, track::Alloc<B>> Mt; track::error().clear(); track::live().clear();
  {
    struct Ob { std::unique_ptr<Mt> m; size_t N = 0, M = 0; std::vector<B> v; }; std::vector<Ob> o(3); for (auto& x : o) x.m = std::make_unique<Mt>(); std::string tr; long cnt = 0; auto val = [&] { return B(double(++cnt)); };
    auto verify = [&](Ob& a, const char* nm) { if (!c.check(a.m->N() == a.N && a.m->M() == a.M, str("dense-size-after-", nm), str(a.m->N(), "x", a.m->M(), " expected ", a.N, "x", a.M))) return false; size_t ri = 0; for (auto r = a.m->begin(); r != a.m->end(); ++r, ++ri) { size_t ci = 0; if (!c.check(r.index() == ri, "dense-row-index")) return false; for (auto q = r->begin(); q != r->end(); ++q, ++ci) if (!c.check(q.index() == ci && *q == a.v[ri * a.M + ci] && (*a.m)[ri][ci] == *q, str("dense-value-after-", nm), str("(", ri, ",", ci, ")"))) return false; if (!c.check(ci == a.M, "dense-row-length")) return false; } return c.check(ri == a.N, "dense-row-count"); };
    long steps = g.range(3, 20);
    for (long t = 0; t < steps; ++t) {
      size_t i = g.range(0, 2), j = g.range(0, 2); Ob &a = o[i], &b = o[j]; const char* nm = "";
      auto fill = [&](Ob& a) { a.v.clear(); for (size_t r = 0; r < a.N; ++r) for (size_t q = 0; q < a.M; ++q) { a.v.push_back(val()); (*a.m)[r][q] = a.v.back(); } };
      switch (g.range(0, 8)) {
        case 0: nm = "construct"; a.N = g.range(0, 5); a.M = g.range(0, 5); a.m = std::make_unique<Mt>(a.N, a.M); fill(a); break;
        case 1: nm = "setSize"; a.N = g.range(0, 5); a.M = g.range(0, 5); a.m->setSize(a.N, a.M); fill(a); break;
        case 2: { nm = "copy"; auto p = std::make_unique<Mt>(*b.m); a.m = std::move(p); a.N = b.N; a.M = b.M; a.v = std::vector<B>(b.v); break; }
        case 3: nm = "assign"; *a.m = *b.m; if (i != j) { a.N = b.N; a.M = b.M; a.v = b.v; } break;
        case 4: { nm = "move-construct"; if (i == j) break; auto p = std::make_unique<Mt>(std::move(*b.m)); a.m = std::move(p); a.N = b.N; a.M = b.M; a.v = b.v; b.m = std::make_unique<Mt>(); b.N = b.M = 0; b.v.clear(); break; }
        case 5: { nm = "move-assign"; if (i == j) break; *a.m = std::move(*b.m); a.N = b.N; a.M = b.M; a.v = b.v; b.m = std::make_unique<Mt>(); b.N = b.M = 0; b.v.clear(); break; }
        case 6: nm = "write"; fill(a); break;
        case 7: { nm = "scalar"; *a.m = 3.0; for (auto& x : a.v) x = B(3.0); break; }
        case 8: { nm = "swap-assign"; if (i == j) break; Mt tmp(*a.m); *a.m = *b.m; *b.m = tmp; std::swap(a.N, b.N); std::swap(a.M, b.M); std::swap(a.v, b.v); break; }
      }
      tr += str(nm, i, j, " "); c.note(tr); bool ok = true; for (auto& x : o) ok = ok && verify(x, nm); ok = c.check(track::error().empty(), str("storage-after-", nm), track::error()) && ok; if (!ok) break;
    }
    c.sig(tr);
  }
  c.check(track::error().empty(), "storage-at-end", track::error()); c.check(track::live().empty(), "leak"); track::live().clear();
}
VGROUP("dense-double", 600, 20000) { denseHist<double>(c); }
VGROUP("dense-f22", 400, 10000) { denseHist<F22>(c); }
template<class Mt> void bdHist(Case& c, bool tri) {
  Rng& g = c.rng; track::error().clear(); track::live().clear();
  {
    struct Ob { std::unique_ptr<Mt> m; Sp<double> s; }; std::vector<Ob> o(3); auto mk = [&](size_t n) { Pattern p(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i == j || (tri && (i + 1 == j || j + 1 == i))) p[i].insert(j); return Sp<double>::make(g, n, n, p, [](Rng& r) { return double(r.range(1, 99)); }); };
    for (auto& x : o) { x.s = mk(g.range(1, 4)); x.m = std::make_unique<Mt>(x.s.N); setValues(*x.m, x.s); } std::string tr;
    for (long t = g.range(2, 14); t > 0; --t) { size_t i = g.range(0, 2), j = g.range(0, 2); auto &a = o[i], &b = o[j]; const char* nm = "";
      switch (g.range(0, 5)) { case 0: nm = "setSize"; a.s = mk(g.range(0, 5)); a.m->setSize(a.s.N); setValues(*a.m, a.s); break; case 1: { nm = "copy"; auto p = std::make_unique<Mt>(*b.m); a.m = std::move(p); if (i != j) a.s = b.s; break; } case 2: nm = "assign"; *a.m = *b.m; if (i != j) a.s = b.s; break; case 3: nm = "scale"; *a.m *= 2.0; for (auto& e : a.s.v) e.second *= 2; break; case 4: nm = "write"; for (auto& e : a.s.v) { e.second = g.range(1, 99); (*a.m)[e.first.first][e.first.second] = e.second; } break; case 5: nm = "scalar"; *a.m = 5.0; for (auto& e : a.s.v) e.second = 5; break; }
      tr += str(nm, i, j, " "); c.note(tr); bool ok = true; for (auto& x : o) { auto d = compare(*x.m, x.s); ok = ok && c.check(d.empty(), str("state-after-", nm), d); } ok = c.check(track::error().empty(), str("storage-after-", nm), track::error()) && ok; if (!ok) break; }
    c.sig(tr);
  }
  c.check(track::error().empty(), "storage-at-end", track::error()); c.check(track::live().empty(), "leak"); track::live().clear();
}
VGROUP("bd", 300, 6000) { bdHist<Dune::BDMatrix<double, track::Alloc<double>>>(c, false); }
VGROUP("btd", 300, 6000) { bdHist<Dune::BTDMatrix<double, track::Alloc<double>>>(c, true); }
