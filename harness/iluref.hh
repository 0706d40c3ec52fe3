// Incomplete factorisations written directly from their definition, on dense blocks.
#ifndef VH_ILUREF_HH
#define VH_ILUREF_HH
#include "ref.hh"
using namespace ref;
struct Singular {};
// ---- incomplete factorisations on dense blocks -----------------------------------------------------
template<class K> struct BM { size_t N, b; std::vector<std::vector<DM<K>>> a; std::vector<std::set<size_t>> p;
  template<class S> BM(const S& s, size_t b_) : N(s.N), b(b_), a(N, std::vector<DM<K>>(N, DM<K>(b_, b_))), p(s.p) { for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) for (size_t r = 0; r < b; ++r) for (size_t t = 0; t < b; ++t) a[i][j](r, t) = s.D(i * b + r, j * b + t); } 
  std::vector<K> get(const std::vector<K>& v, size_t i) const { return std::vector<K>(v.begin() + i * b, v.begin() + (i + 1) * b); }
  void put(std::vector<K>& v, size_t i, const std::vector<K>& y) const { std::copy(y.begin(), y.end(), v.begin() + i * b); }
  static void sub(std::vector<K>& r, const std::vector<K>& y) { for (size_t i = 0; i < r.size(); ++i) r[i] -= y[i]; } };
template<class K> static DM<K> inv_(const DM<K>& A) { DM<K> I; if (!inverse(A, I)) throw Singular{}; return I; }
// fill pattern by generations: fill created from two entries of generation < n gets the generation of the eliminating row's entry plus one
static Pattern fill(const Pattern& p, int n) { size_t N = p.size(); std::vector<std::map<size_t, int>> G(N); Pattern q(N);
  for (size_t i = 0; i < N; ++i) { auto& R = G[i]; for (auto j : p[i]) R[j] = 0; for (auto it = R.begin(); it != R.end() && it->first < i; ++it) if (it->second < n) for (auto& kj : G[it->first]) if (kj.first > it->first && kj.second < n && !R.count(kj.first)) R[kj.first] = kj.second + 1; for (auto& e : R) q[i].insert(e.first); } return q; }
template<class K> static std::vector<K> iluApply(BM<K> M, const Pattern& p, const std::vector<K>& d, double w) {
  size_t N = M.N; auto& a = M.a;
  for (size_t i = 0; i < N; ++i) { for (size_t k = 0; k < i; ++k) if (p[i].count(k)) { a[i][k] = a[i][k].mul(inv_(a[k][k])); for (size_t j = k + 1; j < N; ++j) if (p[i].count(j) && p[k].count(j)) a[i][j] = a[i][j] - a[i][k].mul(a[k][j]); } }
  std::vector<K> v(d.size(), K(0));
  for (size_t i = 0; i < N; ++i) { auto r = M.get(d, i); for (size_t j = 0; j < i; ++j) if (p[i].count(j)) M.sub(r, a[i][j].mul(M.get(v, j))); M.put(v, i, r); }
  for (size_t i = N; i-- > 0;) { auto r = M.get(v, i); for (size_t j = i + 1; j < N; ++j) if (p[i].count(j)) M.sub(r, a[i][j].mul(M.get(v, j))); M.put(v, i, inv_(a[i][i]).mul(r)); }
  for (auto& e : v) e *= K(w); return v; }
#endif
