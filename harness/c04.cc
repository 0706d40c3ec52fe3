// C04: vector containers under random operation histories; algebra on the flattened entries.
#include "ref.hh"
#include "track.hh"
#include <memory>
#include <dune/istl/vbvector.hh>
using namespace ref; using namespace vh; using namespace Dune;
template<class V> struct Fld { using K = typename V::field_type; };
template<class K> using R_ = typename FieldTraits<K>::real_type;
template<class K> double tol() { return std::is_same_v<R_<K>, float> ? 2e-5 : 1e-12; }
inline bool close(double a, double b, double t) { return std::abs(a - b) <= t * (1 + std::abs(a) + std::abs(b)); }

// every vector-space operation on two vectors of the same structure
template<class V> void algebra(Case& c, const V& a0, const V& b0, const std::string& what, bool isMT = false) {
  typedef typename V::field_type K; Rng& g = c.rng; auto fa = flatten<K>(a0), fb = flatten<K>(b0); size_t n = fa.size();
  auto ck = [&](const V& v, const std::vector<K>& f, const char* op) { auto x = flatten<K>(v); c.check(x == f, str(what, "-", op), str("got ", show(x), " expected ", show(f), " from a=", show(fa), " b=", show(fb))); };
  auto unchanged = [&](const char* op) { c.check(flatten<K>(b0) == fb && flatten<K>(a0) == fa, str(what, "-", op, "-changed-operand")); };
  K s = smallInt<K>(g, 4), d = g.pick({K(1), K(2), K(-4), K(0.5)});
  if constexpr (std::is_integral_v<K>) d = 1;
  { V v(a0); v += b0; auto f = fa; for (size_t i = 0; i < n; ++i) f[i] += fb[i]; ck(v, f, "plus"); unchanged("plus"); }
  { V v(a0); v -= b0; auto f = fa; for (size_t i = 0; i < n; ++i) f[i] -= fb[i]; ck(v, f, "minus"); unchanged("minus"); }
  { V v(a0); v *= s; auto f = fa; for (size_t i = 0; i < n; ++i) f[i] *= s; ck(v, f, "scale"); unchanged("scale"); }
  { V v(a0); v /= d; auto f = fa; for (size_t i = 0; i < n; ++i) f[i] /= d; ck(v, f, "divide"); unchanged("divide"); }
  { V v(a0); v.axpy(s, b0); auto f = fa; for (size_t i = 0; i < n; ++i) f[i] += s * fb[i]; ck(v, f, "axpy"); unchanged("axpy"); }
  { V v(a0); v.axpy(s, v); auto f = fa; for (size_t i = 0; i < n; ++i) f[i] += s * fa[i]; if constexpr (!isC<K>::value) ck(v, f, "axpy-self"); }
  { V v(a0); v = s; ck(v, std::vector<K>(n, s), "assign-scalar"); unchanged("assign-scalar"); }
  { V v(a0); v = b0; ck(v, fb, "assign"); if (n) { V w(v); w *= K(2); ck(v, fb, "copy-shares"); } }
  K t(0), h(0); for (size_t i = 0; i < n; ++i) { t += fa[i] * fb[i]; h += conj_(fa[i]) * fb[i]; }
  auto nearK = [&](K x, K y) { return dabs(K(x - y)) <= tol<K>() * (1 + dabs(x) + dabs(y)); };
  c.check(nearK(a0 * b0, t), what + "-indefinite-product", str("got ", a0 * b0, " expected ", t, " a=", show(fa), " b=", show(fb)));
  c.check(nearK(a0.dot(b0), h), what + "-dot", str("got ", a0.dot(b0), " expected ", h, " a=", show(fa), " b=", show(fb)));
  double o = 0, o1 = 0, q = 0, m = 0, m1 = 0; for (auto& x : fa) { o += dabs(x); o1 += dabs1(x); q += dabs2(x); m = std::max(m, dabs(x)); m1 = std::max(m1, dabs1(x)); }
  auto nrm = [&](double got, double ex, const char* nm) { c.check(close(got, ex, tol<K>()), str(what, "-", nm), str("got ", got, " expected ", ex, " of ", show(fa))); };
  nrm(double(a0.one_norm()), o, "one_norm"); nrm(double(a0.one_norm_real()), o1, "one_norm_real"); nrm(double(a0.two_norm2()), q, "two_norm2");
  if constexpr (!std::is_integral_v<K>) nrm(double(a0.two_norm()), std::sqrt(q), "two_norm");
  nrm(double(a0.infinity_norm()), m, "infinity_norm"); nrm(double(a0.infinity_norm_real()), m1, "infinity_norm_real");
  if constexpr (requires { a0.dim(); }) c.check(a0.dim() == n, what + "-dim", str(a0.dim(), " expected ", n));
  unchanged("reductions");
}

// ---- BlockVector -----------------------------------------------------------------------------------
template<class B> struct FB { typedef typename B::field_type K; static constexpr int s = B::dimension; static B make(const K* k) { B b; for (int i = 0; i < s; ++i) b[i] = k[i]; return b; } };
template<class B> requires (IsNumber<B>::value) struct FB<B> { typedef B K; static constexpr int s = 1; static B make(const K* k) { return *k; } };

template<class B> void bvHist(Case& c) {
  typedef BlockVector<B, track::Alloc<B>> V; typedef typename FB<B>::K K; constexpr int s = FB<B>::s; Rng& g = c.rng; track::error().clear(); track::live().clear();
  {
    struct Ob { std::unique_ptr<V> v; std::vector<K> f; }; std::vector<Ob> o(3); for (auto& x : o) x.v = std::make_unique<V>(); std::string tr;
    auto verify = [&](Ob& x, const char* nm) {
      size_t n = x.f.size() / s; const V& v = *x.v; std::string k = std::string("-after-") + nm;
      if (!c.check(v.size() == n && v.N() == n && v.dim() == x.f.size(), "size" + k, str(v.size(), "/", v.N(), " expected ", n))) return false;
      if (!c.check(flatten<K>(v) == x.f, "value" + k, str(show(flatten<K>(v)), " expected ", show(x.f)))) return false;
      size_t i = 0; bool ok = true; for (auto it = v.begin(); it != v.end(); ++it, ++i) ok = ok && i < n && it.index() == i && *it == v[i]; ok = ok && i == n;
      i = n; if (n) for (auto it = v.beforeEnd(); i > 0; --it) { --i; ok = ok && it.index() == i && &*it == &v[i]; }
      i = 0; for (auto it = x.v->begin(); it != x.v->end(); ++it, ++i) ok = ok && &*it == &(*x.v)[i]; ok = ok && i == n;
      for (size_t j = 0; j < n; ++j) ok = ok && v.find(j).index() == j && &*v.find(j) == &v[j] && &*(v.begin() + j) == &v[j] && &*x.v->find(j) == &v[j];
      ok = ok && v.find(n) == v.end() && v.find(n + 3) == v.end() && x.v->find(n + 1) == x.v->end() && size_t(v.end() - v.begin()) == n && v.data() == (n ? &v[0] : v.data()) && v.capacity() >= n;
      return c.check(ok, "traversal" + k);
    };
    auto rnd = [&](size_t n) { return randVec<K>(g, n * s); };
    for (long t = g.range(3, c.thorough ? 30 : 16); t > 0; --t) {
      size_t i = g.range(0, 2), j = g.range(0, 2); auto &a = o[i], &b = o[j]; const char* nm = "";
      switch (g.range(0, 14)) {
        case 0: { nm = "construct"; size_t n = g.range(0, 6); a.v = std::make_unique<V>(n); a.f = rnd(n); assign(*a.v, a.f); break; }
        case 1: { nm = "construct-capacity"; size_t n = g.range(0, 6), cap = g.range(0, 9); a.v = std::make_unique<V>(n, cap); c.check(a.v->capacity() >= std::max(n, cap), "capacity"); a.f = rnd(n); assign(*a.v, a.f); break; }
        case 2: { nm = "init-list"; a.f = rnd(3); a.v = std::make_unique<V>(std::initializer_list<B>{FB<B>::make(&a.f[0]), FB<B>::make(&a.f[s]), FB<B>::make(&a.f[2 * s])}); break; }
        case 3: { nm = "copy"; auto p = std::make_unique<V>(*b.v); a.v = std::move(p); a.f = std::vector<K>(b.f); break; }
        case 4: nm = "assign"; *a.v = *b.v; if (i != j) a.f = b.f; break;
        case 5: { nm = "move"; if (i == j) break; auto p = std::make_unique<V>(std::move(*b.v)); a.v = std::move(p); a.f = b.f; b.v->resize(2); b.f = rnd(2); assign(*b.v, b.f); break; }
        case 6: { nm = "move-assign"; if (i == j) break; *a.v = std::move(*b.v); a.f = b.f; *b.v = V(3); b.f = rnd(3); assign(*b.v, b.f); break; }
        case 7: nm = "swap"; if (i != j) { a.v->swap(*b.v); std::swap(a.f, b.f); } break;
        case 8: { nm = "resize"; size_t n = g.range(0, 8), old = a.f.size() / s; a.v->resize(n); a.f.resize(n * s, K(0)); (void)old; break; } // new blocks are value-initialised
        case 9: { nm = "reserve"; size_t cap = g.range(0, 20); a.v->reserve(cap); c.check(a.v->capacity() >= cap, "reserve-capacity"); break; }
        case 10: { nm = "write"; if (a.f.empty()) break; size_t k = g.range(0, a.f.size() / s - 1); auto r = rnd(1); for (int q = 0; q < s; ++q) a.f[k * s + q] = r[q]; (*a.v)[k] = FB<B>::make(r.data()); break; }
        case 11: { nm = "scalar"; K k = smallInt<K>(g); *a.v = k; std::fill(a.f.begin(), a.f.end(), k); break; }
        case 12: { nm = "algebra"; if (a.f.size() != b.f.size()) break; algebra(c, *a.v, *b.v, "blockvector"); break; }
        case 13: { nm = "iter-write"; size_t k = 0; for (auto& e : *a.v) { auto r = rnd(1); e = FB<B>::make(r.data()); for (int q = 0; q < s; ++q) a.f[k++] = r[q]; } break; }
        case 14: nm = "std-swap"; if (i != j) { std::swap(*a.v, *b.v); std::swap(a.f, b.f); } break;
      }
      tr += str(nm, i, j, " "); c.note(tr); bool ok = true; for (auto& x : o) ok = ok && verify(x, nm); if (!ok) break;
    }
    c.sig(tr);
  }
  c.check(track::error().empty(), "storage", track::error()); c.check(track::live().empty(), "leak"); track::live().clear();
}
VGROUP("bv-double", 500, 20000) { bvHist<double>(c); }
VGROUP("bv-complex", 300, 8000) { bvHist<std::complex<double>>(c); }
VGROUP("bv-float", 200, 4000) { bvHist<float>(c); }
VGROUP("bv-fv1", 200, 4000) { bvHist<FieldVector<double, 1>>(c); }
VGROUP("bv-fv3", 400, 10000) { bvHist<FieldVector<double, 3>>(c); }
VGROUP("bv-cfv2", 300, 8000) { bvHist<FieldVector<std::complex<double>, 2>>(c); }

// ---- algebra on nested and mixed types ---------------------------------------------------------------
VGROUP("nested", 250, 6000) {
  Rng& g = c.rng; typedef BlockVector<FieldVector<double, 2>> In; BlockVector<In> a(g.range(0, 5)), b(a.size());
  for (size_t i = 0; i < a.size(); ++i) { size_t k = g.range(0, 4); a[i].resize(k); b[i].resize(k); }
  size_t n = flatten<double>(a).size(); assign(a, randVec<double>(g, n)); assign(b, randVec<double>(g, n)); c.note(str("nested ", a.size(), "/", n)); c.sig(c.desc); algebra(c, a, b, "nested");
  typedef std::complex<double> C; BlockVector<BlockVector<C>> p(a.size()), q(a.size()); for (size_t i = 0; i < p.size(); ++i) { p[i].resize(i % 3); q[i].resize(i % 3); } n = flatten<C>(p).size(); assign(p, randVec<C>(g, n)); assign(q, randVec<C>(g, n)); algebra(c, p, q, "nested-complex");
}
VGROUP("mixed-dot", 200, 4000) {
  Rng& g = c.rng; typedef std::complex<double> C; size_t n = g.range(0, 6); BlockVector<FieldVector<double, 2>> a(n); BlockVector<FieldVector<C, 2>> b(n); auto fa = randVec<double>(g, 2 * n); auto fb = randVec<C>(g, 2 * n); assign(a, fa); assign(b, fb);
  C t(0), h(0); for (size_t i = 0; i < 2 * n; ++i) { t += fa[i] * fb[i]; h += std::conj(fb[i]) * fa[i]; } c.sig(str(n));
  c.check(a.dot(b) == t, "real-complex-dot", str(a.dot(b), " expected ", t)); c.check(b.dot(a) == h, "complex-real-dot", str(b.dot(a), " expected ", h)); c.check(a * b == t && b * a == t, "mixed-product");
}
VGROUP("multitype", 300, 8000) {
  Rng& g = c.rng; typedef MultiTypeBlockVector<BlockVector<FieldVector<double, 1>>, BlockVector<FieldVector<double, 3>>, BlockVector<double>> V; V a, b; size_t s[3]; for (auto& x : s) x = g.range(0, 4);
  auto rs = [&](V& v) { using namespace Dune::Indices; v[_0].resize(s[0]); v[_1].resize(s[1]); v[_2].resize(s[2]); }; rs(a); rs(b); size_t n = flatten<double>(a).size(); assign(a, randVec<double>(g, n)); assign(b, randVec<double>(g, n)); c.note(str("multitype ", s[0], " ", s[1], " ", s[2])); c.sig(c.desc);
  algebra(c, a, b, "multitype"); c.check(V::size() == 3 && V::N() == 3, "multitype-count");
  typedef MultiTypeBlockVector<V, BlockVector<FieldVector<double, 2>>> W; W x, y; using namespace Dune::Indices; x[_0] = a; y[_0] = b; x[_1].resize(s[0]); y[_1].resize(s[0]); n = flatten<double>(x).size(); assign(x, randVec<double>(g, n)); assign(y, randVec<double>(g, n)); algebra(c, x, y, "multitype-nested");
  typedef std::complex<double> C; typedef MultiTypeBlockVector<BlockVector<FieldVector<C, 2>>, FieldVector<C, 3>> Z; Z p, q; p[_0].resize(s[1]); q[_0].resize(s[1]); n = flatten<C>(p).size(); assign(p, randVec<C>(g, n)); assign(q, randVec<C>(g, n)); algebra(c, p, q, "multitype-complex");
}
// ---- VariableBlockVector ------------------------------------------------------------------------------
template<class B> void vbvHist(Case& c) {
  typedef VariableBlockVector<B, track::Alloc<B>> V; typedef typename FB<B>::K K; constexpr int s = FB<B>::s; Rng& g = c.rng; track::error().clear(); track::live().clear();
  {
    struct Ob { std::unique_ptr<V> v; std::vector<size_t> bs; std::vector<K> f; bool init = false; size_t n() const { size_t r = 0; for (auto b : bs) r += b; return r * s; } };
    std::vector<Ob> o(3); for (auto& x : o) x.v = std::make_unique<V>(); std::string tr;
    auto fill = [&](Ob& x) { x.f = randVec<K>(g, x.n()); assign(*x.v, x.f); x.init = true; };
    auto create = [&](Ob& x) { bool star = g.coin(); size_t k = 0; for (auto it = x.v->createbegin(); it != x.v->createend(); ++it, ++k) { c.check(it.index() == k, "create-index"); if (star) { *it = x.bs[k]; c.check(size_t(*it) == x.bs[k], "create-size-proxy"); } else it.setblocksize(x.bs[k]); } c.check(k == x.bs.size(), "create-count"); fill(x); };
    auto rbs = [&] { std::vector<size_t> b(g.range(0, 5)); for (auto& x : b) x = g.range(0, 4); return b; };
    auto verify = [&](Ob& x, const char* nm) {
      const V& v = *x.v; std::string k = std::string("-after-") + nm; if (!x.init) return true;
      if (!c.check(v.N() == x.bs.size() && v.size() == x.bs.size(), "vbv-blocks" + k, str(v.N(), " expected ", x.bs.size()))) return false;
      for (size_t i = 0; i < x.bs.size(); ++i) if (!c.check(v[i].N() == x.bs[i] && v[i].size() == x.bs[i], "vbv-block-size" + k, str("block ", i, ": ", v[i].N(), " expected ", x.bs[i]))) return false;
      if (!c.check(v.dim() == x.f.size(), "vbv-dim" + k)) return false;
      if (!c.check(flatten<K>(v) == x.f, "vbv-value" + k, str(show(flatten<K>(v)), " expected ", show(x.f)))) return false;
      bool ok = true; size_t i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) { ok = ok && it.index() == i && &*it == &v[i]; size_t q = 0; for (auto jt = it->begin(); jt != it->end(); ++jt, ++q) ok = ok && jt.index() == q && &*jt == &v[i][q]; ok = ok && q == x.bs[i]; } ok = ok && i == x.bs.size();
      i = 0; for (auto it = x.v->begin(); it != x.v->end(); ++it, ++i) ok = ok && it.index() == i && &*it == &(*x.v)[i];
      for (size_t q = 0; q < x.bs.size(); ++q) ok = ok && &*v.find(q) == &v[q] && &*x.v->find(q) == &v[q]; ok = ok && v.find(x.bs.size()) == v.end() && v.find(x.bs.size() + 4) == v.end();
      if (x.bs.size()) { ok = ok && &*x.v->beforeEnd() == &(*x.v)[x.bs.size() - 1]; }
      return c.check(ok, "vbv-traversal" + k);
    };
    for (long t = g.range(3, c.thorough ? 30 : 16); t > 0; --t) {
      size_t i = g.range(0, 2), j = g.range(0, 2); auto &a = o[i], &b = o[j]; const char* nm = "";
      switch (g.range(0, 13)) {
        case 0: { nm = "construct"; size_t n = g.range(0, 5), k = g.range(0, 4); a.v = std::make_unique<V>(n, k); a.bs.assign(n, k); fill(a); break; }
        case 1: { nm = "construct-create"; a.bs = rbs(); a.v = std::make_unique<V>(a.bs.size()); create(a); break; }
        case 2: { nm = "resize-create"; a.bs = rbs(); a.v->resize(a.bs.size()); create(a); break; }
        case 3: { nm = "resize-const"; size_t n = g.range(0, 5), k = g.range(0, 4); a.v->resize(n, k); a.bs.assign(n, k); fill(a); break; }
        case 4: { nm = "copy"; auto p = std::make_unique<V>(*b.v); a.v = std::move(p); if (i != j) { a.bs = b.bs; a.f = b.f; a.init = b.init; } break; }
        case 5: nm = "assign"; if (i == j) { V& al = *a.v; *a.v = al; } else { *a.v = *b.v; a.bs = b.bs; a.f = b.f; a.init = b.init; } break;
        case 6: { nm = "move"; if (i == j) break; auto p = std::make_unique<V>(std::move(*b.v)); a.v = std::move(p); a.bs = b.bs; a.f = b.f; a.init = b.init; b.bs = rbs(); b.v->resize(b.bs.size()); create(b); break; }
        case 7: { nm = "move-assign"; if (i == j) break; *a.v = std::move(*b.v); a.bs = b.bs; a.f = b.f; a.init = b.init; b.v = std::make_unique<V>(2, 1); b.bs.assign(2, 1); fill(b); break; }
        case 8: nm = "swap"; if (i != j) { if (g.coin()) a.v->swap(*b.v); else { using std::swap; swap(*a.v, *b.v); } std::swap(a.bs, b.bs); std::swap(a.f, b.f); std::swap(a.init, b.init); } break;
        case 9: { nm = "write"; if (!a.init) break; size_t off = 0; for (size_t p = 0; p < a.bs.size(); ++p) { for (size_t q = 0; q < a.bs[p]; ++q) if (g.coin(0.3)) { auto r = randVec<K>(g, s); (*a.v)[p][q] = FB<B>::make(r.data()); for (int z = 0; z < s; ++z) a.f[off + q * s + z] = r[z]; } off += a.bs[p] * s; } break; }
        case 10: { nm = "scalar"; if (!a.init) break; K k = smallInt<K>(g); *a.v = k; std::fill(a.f.begin(), a.f.end(), k); break; }
        case 11: { nm = "algebra"; if (!a.init) break; V p(*a.v), q(*a.v); assign(q, randVec<K>(g, a.f.size())); algebra(c, p, q, "vbv"); break; }
        case 12: { nm = "block-assign"; if (!a.init || !b.init || a.bs.empty() || b.bs.empty()) break; size_t p = g.range(0, a.bs.size() - 1), q = g.range(0, b.bs.size() - 1); if (a.bs[p] != b.bs[q]) break; (*a.v)[p] = (*b.v)[q]; size_t po = 0, qo = 0; for (size_t z = 0; z < p; ++z) po += a.bs[z] * s; for (size_t z = 0; z < q; ++z) qo += b.bs[z] * s; std::vector<K> tmp(b.f.begin() + qo, b.f.begin() + qo + b.bs[q] * s); std::copy(tmp.begin(), tmp.end(), a.f.begin() + po); break; }
        case 13: { nm = "block-value"; if (!a.init || a.bs.empty()) break; size_t p = g.range(0, a.bs.size() - 1), po = 0; for (size_t z = 0; z < p; ++z) po += a.bs[z] * s; typename V::value_type val = (*a.v)[p]; c.check(flatten<K>(val) == std::vector<K>(a.f.begin() + po, a.f.begin() + po + a.bs[p] * s), "block-as-value"); val = K(9); typename V::value_type v2(a.bs[p]); for (auto& e : v2) e = K(1); (*a.v)[p] += v2; for (size_t z = 0; z < a.bs[p] * s; ++z) a.f[po + z] += K(1); break; }
      }
      tr += str(nm, i, j, " "); c.note(tr); bool ok = true; for (auto& x : o) ok = ok && verify(x, nm); if (!ok) break;
    }
    c.sig(tr);
  }
  c.check(track::error().empty(), "storage", track::error()); c.check(track::live().empty(), "leak"); track::live().clear();
}
VGROUP("vbv-double", 600, 20000) { vbvHist<double>(c); }
VGROUP("vbv-fv2", 400, 10000) { vbvHist<FieldVector<double, 2>>(c); }
VGROUP("vbv-complex", 300, 8000) { vbvHist<std::complex<double>>(c); }
VGROUP("vbv-unset", 200, 3000) { // "same effect as the constructor": blocks whose size is never set are empty
  Rng& g = c.rng; VariableBlockVector<double> v(g.range(1, 4), g.range(1, 3)); v = 1.0; size_t n = g.range(1, 6); v.resize(n); size_t i = 0; std::vector<size_t> bs(n, 0); for (auto it = v.createbegin(); it != v.createend(); ++it, ++i) if (g.coin()) it.setblocksize(bs[i] = g.range(0, 3)); c.sig(str(n, bs[0])); bool ok = true; size_t tot = 0; for (i = 0; i < n; ++i) { ok = ok && v[i].N() == bs[i]; tot += bs[i]; } c.check(ok && v.dim() == tot, "stale-block-size"); v = 2.0;
}
// NaN must survive in the infinity norms
VGROUP("nan-norm", 100, 1000) {
  Rng& g = c.rng; size_t n = g.range(1, 6); BlockVector<FieldVector<double, 2>> v(n); assign(v, randVec<double>(g, 2 * n)); v[g.range(0, n - 1)][g.range(0, 1)] = std::nan(""); c.sig(str(n)); c.check(std::isnan(v.infinity_norm()) && std::isnan(v.two_norm()) && std::isnan(v.one_norm()) && std::isnan(v.infinity_norm_real()), "nan-lost");
  MultiTypeBlockVector<BlockVector<FieldVector<double, 2>>, BlockVector<double>> m; using namespace Dune::Indices; m[_0] = v; m[_1].resize(2); m[_1] = 5; c.check(std::isnan(m.infinity_norm()) && std::isnan(m.infinity_norm_real()), "nan-lost-multitype");
}
#ifdef DUNE_ISTL_WITH_CHECKING
VGROUP("checked", 200, 2000) {
  Rng& g = c.rng; size_t n = g.range(0, 5), m = n + g.range(1, 3); BlockVector<FieldVector<double, 2>> a(n), b(m); a = 1; b = 2; c.sig(str(n, m)); auto thr = [&](auto f) { try { f(); } catch (const Dune::ISTLError&) { return true; } return false; };
  c.check(thr([&] { a += b; }) && thr([&] { a -= b; }) && thr([&] { a.axpy(1.0, b); }) && thr([&] { (void)(a * b); }) && thr([&] { (void)a.dot(b); }), "size-mismatch-accepted"); c.check(thr([&] { a[n] = 1; }), "index-out-of-range-accepted");
  VariableBlockVector<double> v(n, 2), w(m, 2); v = 1; w = 2; c.check(thr([&] { v += w; }) && thr([&] { v[n] = 1.0; }), "vbv-misuse-accepted"); c.check(thr([&] { v.createbegin(); }), "vbv-recreate-accepted");
}
#endif
