// C24: text, MATLAB and SVG output parsed back and compared with the stored object.
#include "ref.hh"
#include <fstream>
#include <iomanip>
#include <dune/istl/vbvector.hh>
#include <dune/istl/matrix.hh>
#include <dune/istl/bdmatrix.hh>
#include <dune/istl/btdmatrix.hh>
#include <dune/istl/io.hh>
using namespace ref;
using namespace Dune;

inline std::vector<std::string> lines(const std::string& s) { std::vector<std::string> o; std::istringstream i(s); std::string l; while (std::getline(i, l)) o.push_back(l); return o; }
inline std::vector<std::string> toks(const std::string& s) { std::vector<std::string> o; std::istringstream i(s); std::string l; while (i >> l) o.push_back(l); return o; }
template<class K> std::string sci(const K& k, int prec) { char b[512]; if constexpr (isC<K>::value) return "(" + sci(k.real(), prec) + "," + sci(k.imag(), prec) + ")"; else if constexpr (std::is_integral_v<K>) return std::to_string(k); else { std::snprintf(b, sizeof b, "%.*e", prec, double(k)); return b; } }
template<class K> K anyVal(vh::Rng& g) { using R = decltype(std::abs(K())); auto one = [&]() -> double { switch (g.range(0, 6)) { case 0: return 0; case 1: return double(g.range(-3, 3)); case 2: return g.real(-1, 1) * 1e-120; case 3: return -g.real(1, 2) * 1e200; case 4: return 1.0 / 3; case 5: return -g.real(0, 1); default: return g.real(-1000, 1000); } };
  auto clamp = [&](double d) { return std::is_same_v<R, float> ? double(float(std::abs(d) > 1e30 ? 1e30 : d)) : d; };
  if constexpr (isC<K>::value) return K(R(clamp(one())), R(clamp(one()))); else if constexpr (std::is_integral_v<K>) return K(g.range(-9999, 9999)); else return K(clamp(one())); }
// a stream with some prior formatting state; checks that the state is restored
struct St { std::ostringstream s; std::ios_base::fmtflags f; std::streamsize p; 
  St(vh::Rng& g) { switch (g.range(0, 3)) { case 0: s.setf(std::ios::fixed, std::ios::floatfield); break; case 1: s.setf(std::ios::scientific, std::ios::floatfield); break; case 2: s.setf(std::ios::boolalpha); break; default: break; } if (g.coin(0.2)) s.setf(std::ios::left, std::ios::adjustfield); if (g.coin()) s.precision(g.range(1, 20)); f = s.flags(); p = s.precision(); }
  void check(vh::Case& c, const std::string& n) { c.check(s.flags() == f, n + "-flags"); c.check(s.precision() == p, n + "-precision", vh::str(s.precision(), " was ", p)); c.check(s.width() == 0, n + "-width"); } };

template<class K, class V> void pv(vh::Case& c, const std::string& n, V& v, size_t blocks) {
  auto& g = c.rng; auto x = flatten<K>(v); for (auto& e : x) e = anyVal<K>(g); assign(v, x);
  int col = g.range(1, 7), width = g.range(0, 25), prec = g.range(0, 17); std::string row = g.pick({"", "row", "a b", "1"}), title = g.pick({"", "Vec", "the [x] vector"});
  c.note(vh::str(n, " dim ", x.size(), " columns ", col, " width ", width, " prec ", prec, " rowtext '", row, "'"));
  St s(g); bool dflt = g.coin(0.1); if (dflt) { printvector(s.s, v, title, row); col = 1; prec = 2; } else printvector(s.s, v, title, row, col, width, prec); s.check(c, "printvector"); bool left = (s.f & std::ios::adjustfield) == std::ios::left; (void)left;
  auto L = lines(s.s.str()); auto bad = [&](const std::string& w) { c.fail("printvector", w + "\n" + s.s.str().substr(0, 400)); };
  if (L.empty() || L[0] != vh::str(title, " [blocks=", blocks, ",dimension=", x.size(), "]")) return bad("title");
  size_t nl = (x.size() + col - 1) / col; if (L.size() != nl + 1) return bad(vh::str("lines ", L.size(), " expected ", nl + 1));
  for (size_t k = 0; k < nl; ++k) { std::string l = L[k + 1]; if (l.compare(0, row.size() + 1, row + " ")) return bad("row text"); auto t = toks(l.substr(row.size() + 1)); size_t m = std::min<size_t>(col, x.size() - k * col);
    if (t.size() != m + 1 || t[0] != std::to_string(k * col)) return bad(vh::str("line ", k, " shape"));
    for (size_t j = 0; j < m; ++j) if (t[j + 1] != sci(x[k * col + j], prec)) return bad(vh::str("value ", k * col + j, ": ", t[j + 1], " expected ", sci(x[k * col + j], prec))); }
  c.ev(x.size()); c.sig(c.desc);
  // MATLAB
  std::string fn = "/tmp/vhio." + std::to_string(getpid()); int mp = g.coin() ? 18 : g.range(1, 18); if (mp == 18 && g.coin()) writeVectorToMatlab(v, fn); else writeVectorToMatlab(v, fn, mp);
  { std::ifstream f(fn); std::stringstream b; b << f.rdbuf(); L = lines(b.str()); } ::unlink(fn.c_str());
  if (!c.check(L.size() == x.size(), "matlab-vector-lines", vh::str(L.size(), " expected ", x.size()))) return;
  for (size_t i = 0; i < x.size(); ++i) { std::ostringstream o; o.precision(mp); o << x[i]; if (!c.check(L[i] == o.str(), "matlab-vector-value", vh::str(i, ": ", L[i], " expected ", o.str()))) return; if constexpr (std::is_same_v<K, double>) if (mp == 18 && !c.check(std::strtod(L[i].c_str(), nullptr) == x[i], "matlab-vector-exact", L[i])) return; }
}
VGROUP("vector", 6000, 80000) {
  auto& g = c.rng; size_t n = g.range(0, 12);
  switch (g.range(0, 9)) {
    case 0: { BlockVector<double> v(n); pv<double>(c, "BVd", v, n); break; } case 1: { BlockVector<FieldVector<double, 3>> v(n); pv<double>(c, "BVFV3", v, n); break; } case 2: { BlockVector<FieldVector<float, 2>> v(n); pv<float>(c, "BVFVf", v, n); break; }
    case 3: { BlockVector<BlockVector<FieldVector<double, 2>>> v(n); for (auto& x : v) x.resize(g.range(0, 4)); pv<double>(c, "BVBV", v, n); break; } case 4: { BlockVector<FieldVector<std::complex<double>, 2>> v(n); pv<std::complex<double>>(c, "BVc", v, n); break; }
    case 5: { VariableBlockVector<FieldVector<double, 2>> v(n); for (auto it = v.createbegin(); it != v.createend(); ++it) it.setblocksize(g.range(0, 4)); pv<double>(c, "VBV", v, n); break; } case 6: { BlockVector<FieldVector<int, 2>> v(n); pv<int>(c, "BVint", v, n); break; }
    case 7: { FieldVector<double, 4> v; pv<double>(c, "FV4", v, 4); break; } case 8: { BlockVector<std::complex<double>> v(n); pv<std::complex<double>>(c, "BVcs", v, n); break; } case 9: { BlockVector<BlockVector<double>> v(n); for (auto& x : v) x.resize(g.range(0, 4)); pv<double>(c, "BVBVd", v, n); break; }
  }
}
// scalar entries of a matrix in model form: stored positions in nesting order, and their values
template<class K> struct Ent { size_t r, c; K v; };
template<class K> void ents(const K& b, size_t r, size_t c, std::vector<Ent<K>>& o) { o.push_back({r, c, b}); }
template<class K, int n, int m> void ents(const FieldMatrix<K, n, m>& b, size_t r, size_t c, std::vector<Ent<K>>& o) { for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) o.push_back({r + i, c + j, b[i][j]}); }
template<class K, int n> void ents(const ScaledIdentityMatrix<K, n>& b, size_t r, size_t c, std::vector<Ent<K>>& o) { for (int i = 0; i < n; ++i) o.push_back({r + i, c + i, b.scalar()}); }
template<class K, int n> void ents(const DiagonalMatrix<K, n>& b, size_t r, size_t c, std::vector<Ent<K>>& o) { for (int i = 0; i < n; ++i) o.push_back({r + i, c + i, b.diagonal(i)}); }

template<class B> constexpr bool printable = true;
template<class K, int n> constexpr bool printable<ScaledIdentityMatrix<K, n>> = false;
template<class K, int n> constexpr bool printable<DiagonalMatrix<K, n>> = false;
template<class K, class M> void pm(vh::Case& c, const M& A, size_t N, size_t Mc, size_t R, size_t C, const std::vector<Ent<K>>& e) {
  auto& g = c.rng; int width = g.range(0, 25), prec = g.range(0, 17); std::string row = g.pick({"", "row", "a b", "1"}), title = g.pick({"", "Mat", "the [x] matrix"}); std::string d0 = c.desc;
  if constexpr (printable<typename M::block_type>) { c.note(vh::str(d0, " width ", width, " prec ", prec)); St s(g); if (g.coin(0.1)) { printmatrix(s.s, A, title, row); prec = 2; } else printmatrix(s.s, A, title, row, width, prec); s.check(c, "printmatrix");
    std::map<std::pair<size_t, size_t>, std::string> t; for (auto& x : e) t[{x.r, x.c}] = sci(x.v, prec);
    auto L = lines(s.s.str()); auto bad = [&](const std::string& w) { c.fail("printmatrix", w + "\n" + s.s.str().substr(0, 600)); };
    if (L.empty() || L[0] != vh::str(title, " [n=", N, ",m=", Mc, ",rowdim=", R, ",coldim=", C, "]")) return bad(vh::str("title, expected ", R, "x", C));
    if (L.size() != R + 1) return bad(vh::str("lines ", L.size(), " expected ", R + 1));
    for (size_t i = 0; i < R; ++i) { if (L[i + 1].compare(0, row.size() + 1, row + " ")) return bad("row text"); auto k = toks(L[i + 1].substr(row.size() + 1)); if (k.size() != C + 1 || k[0] != std::to_string(i)) return bad(vh::str("row ", i, " has ", k.size(), " tokens"));
      for (size_t j = 0; j < C; ++j) { auto f = t.find({i, j}); std::string w = f == t.end() ? "." : f->second; if (k[j + 1] != w) return bad(vh::str("entry (", i, ",", j, ") ", k[j + 1], " expected ", w)); } }
    c.ev(R * C); }
  // MATLAB
  std::string fn = "/tmp/vhio." + std::to_string(getpid()); int mp = g.coin() ? 18 : g.range(1, 18); if (mp == 18 && g.coin()) writeMatrixToMatlab(A, fn); else writeMatrixToMatlab(A, fn, mp);
  std::vector<std::string> L; { std::ifstream f(fn); std::stringstream b; b << f.rdbuf(); L = lines(b.str()); } ::unlink(fn.c_str());
  if (!c.check(L.size() == e.size(), "matlab-lines", vh::str(L.size(), " expected ", e.size()))) return;
  std::map<std::pair<size_t, size_t>, std::string> t; for (auto& x : e) { std::ostringstream o; o.precision(mp); if constexpr (isC<K>::value) o << x.v.real() << " " << x.v.imag(); else o << x.v; t[{x.r + 1, x.c + 1}] = o.str(); }
  for (auto& l : L) { std::istringstream i(l); size_t r, k; std::string rest; i >> r >> k; i.get(); std::getline(i, rest); auto f = t.find({r, k}); if (!c.check(f != t.end() && f->second == rest, "matlab-entry", l + (f == t.end() ? " not stored (or twice)" : " expected " + f->second))) return; t.erase(f); }
  c.note(d0);
}
// SVG: parse the rectangles; leaves carry "[i, j][k, l]: value" titles
struct Rect { double x, y, w, h; std::vector<std::pair<size_t, size_t>> idx; std::string val; bool leaf; std::string cls, style; };
inline double attr(const std::string& s, const char* n) { auto p = s.find(std::string(" ") + n + "='"); return p == std::string::npos ? NAN : std::strtod(s.c_str() + p + std::strlen(n) + 3, nullptr); }
template<class K, class M, class LeafMap> void svg(vh::Case& c, const M& A, const LeafMap& want, size_t depth) { // want: index path -> value
  auto& g = c.rng; DefaultSVGMatrixOptions o; o.block_size = g.pick({10, 1, 7}); o.interspace = g.pick({5, 0, 2}); switch (g.range(0, 3)) { case 0: break; case 1: o.width = 0; o.height = 300; break; case 2: o.width = 0; o.height = 0; break; default: o.width = 200; o.height = 100; } o.write_header = g.coin(0.8); bool cf = g.coin(0.3); if (cf) o.color_fill = [](const double& d) { return "c" + std::to_string(d); };
  St s(g); if (g.coin(0.1)) { o = DefaultSVGMatrixOptions(); cf = false; writeSVGMatrix(s.s, A); } else writeSVGMatrix(s.s, A, o); s.check(c, "svg"); std::string T = s.s.str();
  c.check((T.find("<?xml") == 0 || T.find("<svg xmlns") == 0) == o.write_header, "svg-header");
  std::vector<Rect> rs; std::vector<std::array<double, 4>> stack{{0, 0, 1e300, 1e300}}; int depthNow = 0; std::string err;
  std::map<std::vector<std::pair<size_t, size_t>>, std::string> got; std::map<std::vector<std::pair<size_t, size_t>>, Rect> box;
  // stack of nested <svg> origins
  std::vector<std::pair<double, double>> org; size_t p = 0;
  while ((p = T.find('<', p)) != std::string::npos) {
    size_t q = T.find('>', p); std::string tag = T.substr(p, q - p + 1);
    if (tag.compare(0, 5, "<svg ") == 0) { double x = attr(tag, "x"), y = attr(tag, "y"); auto b = org.empty() ? std::make_pair(0.0, 0.0) : org.back(); org.push_back({b.first + (std::isnan(x) ? 0 : x), b.second + (std::isnan(y) ? 0 : y)}); ++depthNow; }
    else if (tag == "</svg>") { if (org.empty()) { err = "unbalanced svg"; break; } org.pop_back(); --depthNow; }
    else if (tag.compare(0, 6, "<rect ") == 0) { Rect r; auto b = org.empty() ? std::make_pair(0.0, 0.0) : org.back(); r.x = attr(tag, "x") + b.first; r.y = attr(tag, "y") + b.second; r.w = attr(tag, "width"); r.h = attr(tag, "height");
      size_t e = T.find("</rect>", q), t0 = T.find("<title>", q); if (t0 == std::string::npos || t0 > e) { err = "no title"; break; } size_t t1 = T.find("</title>", t0); std::string ti = T.substr(t0 + 7, t1 - t0 - 7);
      size_t k = 0; while (k < ti.size() && ti[k] == '[') { size_t a, bb; int n = 0; if (std::sscanf(ti.c_str() + k, "[%zu, %zu]%n", &a, &bb, &n) != 2) { err = "title " + ti; break; } r.idx.push_back({a, bb}); k += n; }
      r.leaf = ti.compare(k, 2, ": ") == 0; if (r.leaf) r.val = ti.substr(k + 2); else if (k != ti.size()) err = "title " + ti;
      if (!box.emplace(r.idx, r).second) err = "block twice: " + ti; if (r.leaf) got[r.idx] = r.val; 
      if (r.leaf && r.idx.size() != depth) err = "leaf depth " + ti; p = e; }
    p = q;
  }
  if (err.empty() && (depthNow != 0 || !org.empty())) err = "unbalanced";
  if (!c.check(err.empty(), "svg-syntax", err + "\n" + T.substr(0, 600))) return;
  std::map<std::vector<std::pair<size_t, size_t>>, std::string> w; for (auto& x : want) { std::ostringstream os; os << x.second; w[x.first] = os.str(); }
  std::string d; for (auto& x : w) if (!got.count(x.first)) d = "missing entry"; else if (got[x.first] != x.second) d = "value " + got[x.first] + " expected " + x.second; if (d.empty() && got.size() != w.size()) d = vh::str(got.size(), " leaves expected ", w.size());
  if (!c.check(d.empty(), "svg-entries", d + "\n" + T.substr(0, 600))) return;
  // geometry: every block lies in its parent, the leaf boxes do not overlap and are ordered like the indices
  if (!w.empty()) for (auto& x : box) { auto par = x.first; if (par.empty()) continue; par.pop_back(); auto f = box.find(par); if (f == box.end()) { c.fail("svg-parent", T.substr(0, 400)); return; } auto& r = x.second; auto& q = f->second; if (!(r.x >= q.x && r.y >= q.y && r.x + r.w <= q.x + q.w + 1e-9 && r.y + r.h <= q.y + q.h + 1e-9)) { c.fail("svg-inside", vh::str("box ", r.x, ",", r.y, " ", r.w, "x", r.h, " outside ", q.x, ",", q.y, " ", q.w, "x", q.h)); return; } }
  auto before = [](const std::vector<std::pair<size_t, size_t>>& a, const std::vector<std::pair<size_t, size_t>>& b, bool row) { for (size_t i = 0; i < a.size(); ++i) { auto x = row ? a[i].first : a[i].second, y = row ? b[i].first : b[i].second; if (x != y) return x < y ? -1 : 1; } return 0; };
  long n = 0; for (auto& a : box) if (a.second.leaf) for (auto& b : box) if (b.second.leaf && ++n < 4000) { int rr = before(a.first, b.first, true), cc = before(a.first, b.first, false); auto &x = a.second, &y = b.second;
    bool ok = rr < 0 ? x.y + x.h <= y.y : rr == 0 ? x.y == y.y : true; ok = ok && (cc < 0 ? x.x + x.w <= y.x : cc == 0 ? x.x == y.x : true); if (!ok) { c.fail("svg-position", vh::str("boxes ", x.x, ",", x.y, " and ", y.x, ",", y.y)); return; } }
  c.ev(n);
}
using Path = std::vector<std::pair<size_t, size_t>>;
template<class K> void leaves(const K& b, const Path& p, std::map<Path, K>& o) { o[p] = b; }
template<class K, int n, int m> void leaves(const FieldMatrix<K, n, m>& b, Path p, std::map<Path, K>& o) { p.push_back({0, 0}); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { p.back() = {i, j}; o[p] = b[i][j]; } }

// rows of stored blocks as printed by printSparseMatrix
template<class B, class S> void ps(vh::Case& c, const BCRSMatrix<B>& A, const S& s) {
  using K = typename Blk<B>::K; constexpr int n = Blk<B>::n, m = Blk<B>::m; auto& g = c.rng; int width = g.range(1, 5), prec = g.range(0, 17); std::string row = g.pick({"", "row", "ab", "r1"}), title = "T"; std::string d0 = c.desc;
  c.note(vh::str(d0, " psm width ", width, " prec ", prec)); St st(g); if (g.coin(0.1)) { printSparseMatrix(st.s, A, title, row); prec = 2; } else printSparseMatrix(st.s, A, title, row, width, prec); st.check(c, "printSparseMatrix");
  auto bad = [&](const std::string& w) { c.fail("printSparseMatrix", w + "\n" + st.s.str().substr(0, 700)); }; auto L = lines(st.s.str());
  if (L.empty() || L[0] != vh::str(title, " [n=", s.N, ",m=", s.M, ",rowdim=", s.N * n, ",coldim=", s.M * m, "]")) return bad("title");
  std::map<std::pair<size_t, size_t>, std::vector<std::string>> got; size_t curRow = 0; std::vector<size_t> cols; int inner = 0;
  for (size_t k = 1; k < L.size(); ++k) { std::string l = L[k]; if (l.find('|') == std::string::npos) { if (!toks(l).empty()) return bad("stray text: " + l); continue; }
    std::string sp; for (char ch : l) { if (ch == '|') sp += " | "; else if (ch == ':') sp += " : "; else sp += ch; }
    bool first = l.find(':') != std::string::npos;
    if (first) { if (!cols.empty() && inner != n) return bad("block lines"); if (l.compare(0, row.size() + 1, row + " ")) return bad("row text"); sp = sp.substr(row.size()); inner = 0; cols.clear(); }
    auto t = toks(sp); size_t q = 0; auto idx = [&](size_t& o) { if (q + 1 >= t.size() || t[q + 1] != ":") return false; o = std::strtoul(t[q].c_str(), nullptr, 10); q += 2; return true; };
    if (first && !idx(curRow)) return bad("row index: " + l);
    size_t b = 0; while (q < t.size()) { size_t col; if (first) { if (!idx(col)) return bad("column index: " + l); cols.push_back(col); if (got.count({curRow, col})) return bad("block twice"); } else { if (b >= cols.size()) return bad("too many blocks: " + l); col = cols[b]; } ++b;
      if (q >= t.size() || t[q++] != "|") return bad("bar: " + l); auto& v = got[{curRow, col}]; for (int j = 0; j < m; ++j) { if (q >= t.size()) return bad("short: " + l); v.push_back(t[q++]); } if (q >= t.size() || t[q++] != "|") return bad("closing bar: " + l); }
    if (b != cols.size()) return bad("blocks per line"); ++inner; }
  if (got.size() != s.v.size()) return bad(vh::str(got.size(), " blocks expected ", s.v.size()));
  for (auto& e : s.v) { auto f = got.find(e.first); if (f == got.end()) return bad("missing block"); std::vector<Ent<K>> o; ents(e.second, 0, 0, o); std::map<std::pair<size_t, size_t>, std::string> w; for (auto& x : o) w[{x.r, x.c}] = sci(x.v, prec); if (f->second.size() != size_t(n * m)) return bad("block size");
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { auto h = w.find({size_t(i), size_t(j)}); auto& tk = f->second[i * m + j]; if (h != w.end() ? tk != h->second : !(tk == "-" || tk == "." || std::strtod(tk.c_str(), nullptr) == 0)) return bad(vh::str("block (", e.first.first, ",", e.first.second, ") entry ", i, ",", j, ": ", tk, " expected ", h == w.end() ? "nothing" : h->second)); } }
  c.ev(got.size()); c.note(d0);
}
template<class B> void one(vh::Case& c, const char* name) {
  using K = typename Blk<B>::K; auto& g = c.rng; size_t N = g.coin(0.08) ? 0 : g.range(1, 7), M = g.coin(0.08) ? 0 : g.range(1, 7); std::string kind; auto p = randPattern(g, N, M, false, &kind); auto s = Sp<B>::make(g, N, M, p, [](vh::Rng& r) { return anyVal<K>(r); }); BCRSMatrix<B> A; int mode = build(A, s, g);
  c.note(vh::str("BCRS<", name, "> ", N, "x", M, " ", kind, " ", modeName(mode))); c.sig(vh::str(c.desc, " nnz", s.v.size()));
  std::vector<Ent<K>> e; for (auto& x : s.v) ents(x.second, x.first.first * Blk<B>::n, x.first.second * Blk<B>::m, e);
  pm(c, A, N, M, N * Blk<B>::n, M * Blk<B>::m, e); ps<B>(c, A, s);
  if constexpr (!isC<K>::value && (IsNumber<B>::value || std::is_same_v<B, FieldMatrix<K, Blk<B>::n, Blk<B>::m>>)) { std::map<Path, K> w; for (auto& x : s.v) leaves(x.second, Path{{x.first.first, x.first.second}}, w); svg<K>(c, A, w, IsNumber<B>::value ? 1 : 2); }
}
template<class B> void nested(vh::Case& c, const char* name) {
  using K = typename Blk<B>::K; using In = BCRSMatrix<B>; auto& g = c.rng; size_t n = g.range(1, 3), m = g.range(1, 3); auto o = Sp<double>::rndNM(g, g.range(1, 4), g.range(1, 4)); // every block row and column is occupied: dimensions must be visible
  for (size_t i = 0; i < o.N; ++i) { size_t j = i % o.M; o.p[i].insert(j); o.v[{i, j}] = 0; } for (size_t j = 0; j < o.M; ++j) { size_t i = j % o.N; o.p[i].insert(j); o.v[{i, j}] = 0; }
  BCRSMatrix<In> A; buildPattern(A, o, g, g.pick({(int)RowKnown, (int)Random, (int)IdxSet})); std::vector<Ent<K>> e; std::map<Path, K> w;
  for (auto& x : o.v) { auto s = Sp<B>::make(g, n, m, randPattern(g, n, m), [](vh::Rng& r) { return anyVal<K>(r); }); In a; build(a, s, g); A[x.first.first][x.first.second] = a; for (auto& y : s.v) { ents(y.second, (x.first.first * n + y.first.first) * Blk<B>::n, (x.first.second * m + y.first.second) * Blk<B>::m, e); leaves(y.second, Path{{x.first.first, x.first.second}, {y.first.first, y.first.second}}, w); } }
  c.note(vh::str("BCRS<BCRS<", name, ">> ", o.N, "x", o.M, " of ", n, "x", m, " nnz ", e.size())); c.sig(c.desc); pm(c, A, o.N, o.M, o.N * n * Blk<B>::n, o.M * m * Blk<B>::m, e); svg<K>(c, A, w, IsNumber<B>::value ? 2 : 3);
}
VGROUP("matrix", 6000, 80000) {
  auto& g = c.rng; using C = std::complex<double>;
  switch (g.range(0, 12)) {
    case 0: one<double>(c, "double"); break; case 1: one<FieldMatrix<double, 2, 3>>(c, "FM23"); break; case 2: one<FieldMatrix<double, 3, 1>>(c, "FM31"); break; case 3: one<FieldMatrix<double, 1, 1>>(c, "FM11"); break; case 4: one<FieldMatrix<C, 2, 2>>(c, "FMc"); break; case 5: one<C>(c, "complex"); break;
    case 6: one<ScaledIdentityMatrix<double, 2>>(c, "SId2"); break; case 7: one<ScaledIdentityMatrix<double, 3>>(c, "SId3"); break; case 8: one<DiagonalMatrix<double, 2>>(c, "Diag2"); break; case 9: one<FieldMatrix<float, 2, 2>>(c, "FMf"); break; case 10: nested<double>(c, "double"); break; case 11: nested<FieldMatrix<double, 2, 1>>(c, "FM21"); break;
    case 12: { size_t N = g.range(0, 5), M = g.range(1, 5); if (!N) M = 0; Matrix<FieldMatrix<double, 2, 2>> A(N, M); std::vector<Ent<double>> e; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) { for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) A[i][j][a][b] = anyVal<double>(g); ents(A[i][j], 2 * i, 2 * j, e); } c.note(vh::str("Matrix ", N, "x", M)); c.sig(c.desc); pm(c, A, N, M, 2 * N, 2 * M, e); break; }
  }
}
