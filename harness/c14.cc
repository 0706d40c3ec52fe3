// C14: Matrix Market files.  Round trips of every supported block type and field; files in every form a tool may
// produce, and corrupted or truncated ones, are interpreted by an independent parser that decides what the file
// denotes; the library has to read exactly that, or throw.
#include "config.h"
#include <fstream>
#include <climits>
#include <cerrno>
#include <dune/common/simd/loop.hh>
#include <dune/istl/bcrsmatrix.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/matrixmarket.hh>
#include "vh.hh"
#include "ref.hh"
using namespace ref; using vh::str; using namespace Dune;

// ---------------------------------------------------------------- independent interpretation of a text
template<class K> struct Real { using T = K; }; template<class R> struct Real<std::complex<R>> { using T = R; };
template<class S> static bool number(const std::string& t, S& v) {
  size_t i = 0; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; size_t d = 0, f = 0; while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++d;
  if constexpr (std::is_integral_v<S>) { if (!d || i != t.size()) return false; errno = 0; long long x = strtoll(t.c_str(), nullptr, 10); if (errno || x < std::numeric_limits<S>::min() || x > std::numeric_limits<S>::max()) return false; v = S(x); return true; }
  else { if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++f; } if (!d && !f) return false;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { ++i; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i; size_t x = 0; while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++x; if (!x) return false; }
    if (i != t.size()) return false; if constexpr (sizeof(S) == 4) v = strtof(t.c_str(), nullptr); else v = strtod(t.c_str(), nullptr); return true; }
}
static bool index_(const std::string& t, size_t& v) { long long x; if (!number(t, x) || x < 0) return false; v = x; return true; }
static std::vector<std::string> words(const std::string& l) { std::vector<std::string> w; std::string c; for (char ch : l) if (isspace((unsigned char)ch)) { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch; if (!c.empty()) w.push_back(c); return w; }
static std::string lower(std::string s) { for (auto& c : s) c = tolower((unsigned char)c); return s; }
enum Verdict { Invalid, Unspecified, Lenient, Valid }; // must throw | anything safe | throw or match | must match
template<class K> struct Denoted { Verdict v = Valid; std::string why; bool banner = true, trailing = false, huge = false; size_t rows = 0, cols = 0; std::map<std::pair<size_t, size_t>, K> e; std::vector<K> a; std::string form;
  void low(Verdict w, const std::string& s) { if (w < v) v = w, why = s; } };
template<class K> static Denoted<K> interpret(const std::string& text, bool vector, size_t br, size_t bc, size_t lanes) {
  using R = typename Real<K>::T; Denoted<K> d; auto bad = [&](const std::string& s) -> Denoted<K>& { d.low(Invalid, s); return d; };
  std::vector<std::string> lines; std::vector<bool> comment; { std::string l; for (char ch : text) if (ch == '\n') { lines.push_back(l); l.clear(); } else l += ch; if (!l.empty()) lines.push_back(l); }
  std::string type = vector ? "array" : "coordinate", field = "real", sym = "general"; size_t at = 0;
  { size_t k = 0; while (k < lines.size() && words(lines[k]).empty()) ++k; auto w = k < lines.size() ? words(lines[k]) : std::vector<std::string>();
    bool ok = w.size() >= 5 && w[0] == "%%MatrixMarket" && w[1] == "matrix"; if (ok) { auto t = lower(w[2]), f = lower(w[3]), s = lower(w[4]); ok = (t == "array" || t == "coordinate") && (f == "real" || f == "integer" || f == "complex" || f == "pattern") && (s == "general" || s == "symmetric" || s == "skew-symmetric" || s == "hermitian"); if (ok) type = t, field = f, sym = s; }
    if (ok) { if (k > 0 || w.size() > 5 || isspace((unsigned char)lines[k][0])) d.low(Lenient, "banner with extras"); at = k + 1; } else d.banner = false; }
  d.form = type + " " + field + " " + sym; bool cplx = field == "complex";
  if (type != (vector ? "array" : "coordinate") || field == "pattern") return bad("form not supported for this container"); if (cplx && !isC<K>::value) return bad("complex numbers in a real container"); if (vector && sym != "general") d.low(Unspecified, "vector with a symmetry");
  std::vector<std::vector<std::string>> tl; bool data = false; for (size_t k = at; k < lines.size(); ++k) { std::string l = lines[k]; auto w = words(l); if (w.empty()) { d.low(Lenient, "blank line"); continue; } if (w[0][0] == '%') { if (data || l[0] != '%') d.low(Lenient, "comment amid the data"); continue; } data = true; auto p = l.find('%'); if (p != std::string::npos) { d.low(Lenient, "comment after data"); w = words(l.substr(0, p)); } tl.push_back(w); }
  for (char ch : text) if (ch == '\v' || ch == '\f') d.low(Lenient, "odd white space"); else if (ch == '\0') d.low(Lenient, "null byte"); for (size_t k = 0; k + 1 < text.size(); ++k) if (text[k] == '\r' && text[k + 1] != '\n') d.low(Lenient, "carriage return");
  std::vector<std::string> tk; for (auto& w : tl) tk.insert(tk.end(), w.begin(), w.end()); size_t pos = 0, ent = 0, nh = vector ? 2 : 3; if (tk.size() < nh) return bad("sizes missing"); if (tl[0].size() != nh) d.low(Lenient, "size line"); if (!index_(tk[0], d.rows) || !index_(tk[1], d.cols) || (!vector && !index_(tk[2], ent))) return bad("malformed size"); pos = nh;
  if (d.rows > 3000 || d.cols > 3000) { d.huge = true; return d; }
  if (vector) { if (d.cols != lanes) return bad("columns of a vector"); if (d.rows % br) return bad("rows no multiple of the block size"); ent = d.rows * lanes; } else { if (d.rows % br || d.cols % bc) return bad("size no multiple of the block size"); if (sym != "general" && d.rows != d.cols) return bad("not square"); }
  size_t per = (vector ? 0 : 2) + (cplx ? 2 : 1); bool pair = false; if (isC<K>::value) for (auto& t : tk) if (t[0] == '(') pair = true; if (pair) { d.low(Unspecified, "pairs"); return d; }
  for (size_t k = 1; k < tl.size() && k <= ent; ++k) if (tl[k].size() != per) d.low(Lenient, "line structure");
  if (tk.size() < pos + ent * per) return bad("data missing"); if (tk.size() > pos + ent * per) d.trailing = true;
  auto val = [&](K& v) { R re = 0, im = 0; if (!number(tk[pos++], re) || (cplx && !number(tk[pos++], im))) return false; if (!std::isfinite(double(re)) || !std::isfinite(double(im))) d.low(Lenient, "overflow"); if constexpr (isC<K>::value) v = K(re, im); else v = re; return true; };
  for (size_t k = 0; k < ent; ++k) { size_t i = 0, j = 0; K v; if (!vector) { if (!index_(tk[pos], i) || !index_(tk[pos + 1], j) || i < 1 || j < 1 || i > d.rows || j > d.cols) return bad("index"); if (!isdigit((unsigned char)tk[pos][0]) || !isdigit((unsigned char)tk[pos + 1][0])) d.low(Lenient, "sign of an index"); pos += 2; --i; --j; } if (!val(v)) return bad("number"); if (vector) { d.a.push_back(v); continue; }
    auto put = [&](size_t r, size_t s, K x) { if (!d.e.emplace(std::make_pair(r, s), x).second) d.low(Unspecified, "duplicate entry"); }; put(i, j, v);
    if (sym == "symmetric" && i != j) put(j, i, v); if (sym == "skew-symmetric") { if (i != j) put(j, i, -v); else d.low(Unspecified, "diagonal of a skew-symmetric matrix"); } if (sym == "hermitian") { if (i != j) put(j, i, conj_(v)); else if constexpr (isC<K>::value) if (v.imag() != 0) d.low(Unspecified, "diagonal of a Hermitian matrix"); } }
  return d;
}

// ---------------------------------------------------------------- containers
template<class K> static bool same(const K& a, const K& b) { if constexpr (isC<K>::value) return same(a.real(), b.real()) && same(a.imag(), b.imag()); else return a == b && std::signbit(double(a)) == std::signbit(double(b)); }
template<class K> static bool equal(const K& a, const K& b) { return a == b; }
template<class B, class K> static std::string compareMatrix(const BCRSMatrix<B>& A, const Denoted<K>& d) {
  constexpr size_t br = Blk<B>::n, bc = Blk<B>::m; if (A.N() * br != d.rows || A.M() * bc != d.cols) return str("size ", A.N() * br, "x", A.M() * bc, " instead of ", d.rows, "x", d.cols);
  std::set<std::pair<size_t, size_t>> pat; for (auto& e : d.e) pat.insert({e.first.first / br, e.first.second / bc}); size_t n = 0;
  for (size_t i = 0; i < A.N(); ++i) for (auto it = A[i].begin(); it != A[i].end(); ++it) { ++n; if (!pat.count({i, it.index()})) return str("block (", i, ",", it.index(), ") is not in the file"); DM<K> D(br, bc); Blk<B>::put(*it, D, 0, 0); for (size_t r = 0; r < br; ++r) for (size_t c = 0; c < bc; ++c) { auto f = d.e.find({i * br + r, it.index() * bc + c}); K want = f == d.e.end() ? K(0) : f->second; if (!equal(D(r, c), want)) return str("entry (", i * br + r, ",", it.index() * bc + c, ") is ", D(r, c), " instead of ", want); } }
  if (n != pat.size()) return str(n, " blocks instead of ", pat.size()); if (A.nonzeroes() != n) return str("nonzeroes() is ", A.nonzeroes(), " for ", n, " blocks"); return "";
}
template<class V, class K> static std::string compareVector(const V& v, const std::vector<K>& want) { auto h = flatten<K>(v); if (h.size() != want.size()) return str("size ", h.size(), " instead of ", want.size()); for (size_t i = 0; i < h.size(); ++i) if (!equal(h[i], want[i])) return str("entry ", i, " is ", h[i], " instead of ", want[i]); return ""; }

// ---------------------------------------------------------------- texts
template<class K> static K value(vh::Rng& g) { if constexpr (isC<K>::value) { using R = typename K::value_type; return K(value<R>(g), value<R>(g)); } else if constexpr (std::is_integral_v<K>) return g.coin(0.1) ? g.pick({INT_MAX, INT_MIN, 0}) : K(g.range(-1000, 1000)); else { using L = std::numeric_limits<K>; switch (g.range(0, 9)) { case 0: return L::max(); case 1: return -L::max(); case 2: return L::min(); case 3: return L::denorm_min(); case 4: return K(0); case 5: return -K(0); case 6: return K(g.range(-5, 5)); case 7: return K(g.real(-1, 1) * std::pow(10.0, g.range(-30, 30))); default: return K(g.real(-10, 10)); } } }
static std::string numText(vh::Rng& g, bool integer) { if (integer) return (g.coin(0.1) ? "+" : "") + std::to_string(g.range(g.coin() ? -20 : 0, 20)); char b[64]; switch (g.range(0, 6)) { case 0: return std::to_string(g.range(-9, 9)); case 1: return std::to_string(g.range(0, 9)) + "."; case 2: return "." + std::to_string(g.range(0, 99)); case 3: snprintf(b, 64, "%.17g", g.real(-1, 1)); return b; case 4: snprintf(b, 64, "%.*E", int(g.range(0, 17)), g.real(-1, 1) * std::pow(10, g.range(-25, 25))); return b; case 5: snprintf(b, 64, "+%.3f", g.real(0, 100)); return b; default: snprintf(b, 64, "%.16e", g.real(-1, 1)); return b; } }
static std::string ws(vh::Rng& g, bool sloppy) { if (!sloppy || g.coin(0.7)) return " "; return g.pick({"  ", "\t", "   ", " \t "}); }
static std::string makeText(vh::Rng& g, bool vector, size_t br, size_t bc, size_t lanes, bool integer, bool cplx, std::string& form) {
  bool sloppy = g.coin(0.4), crlf = g.coin(0.15); std::string nl = crlf ? "\r\n" : "\n", t; std::string sym = "general", field = cplx ? (g.coin(0.8) ? "complex" : g.coin() ? "real" : "integer") : integer || g.coin(0.15) ? "integer" : "real";
  if (!vector && g.coin(0.65)) sym = g.pick({"symmetric", "skew-symmetric", "hermitian"}); if (g.coin(0.02)) field = g.pick({"complex", "pattern", "real"}); std::string f2 = field, s2 = sym; if (g.coin(0.15)) f2[0] = toupper(f2[0]), s2[0] = toupper(s2[0]); std::string ty = vector ? "array" : "coordinate"; if (g.coin(0.02)) ty = vector ? "coordinate" : "array";
  size_t N = br * (g.coin(0.06) ? 0 : g.range(1, 6)), M = bc * (g.coin(0.06) ? 0 : g.range(1, 6)); if (sym != "general") { size_t l = br * bc, k = g.coin(0.06) ? 0 : g.range(1, 4); N = M = l * k; if (g.coin(0.02)) M += bc; } bool numI = field == "integer" || integer; bool two = field == "complex";
  if (g.coin(0.95)) t += "%%MatrixMarket matrix " + ty + " " + f2 + " " + s2 + nl; else if (sym != "general" || two) t += "%%MatrixMarket matrix " + ty + " " + f2 + " " + s2 + nl;
  for (int k = g.range(0, 3); k > 0; --k) t += "%" + std::string(g.pick({"", " ISTL_STRUCT blocked 2 2", " comment 1 2 3", "%"})) + nl;
  if (vector) { t += std::to_string(N) + ws(g, sloppy) + std::to_string(lanes) + nl; for (size_t i = 0; i < N * lanes; ++i) t += numText(g, numI) + (two ? ws(g, sloppy) + numText(g, numI) : "") + (sloppy && g.coin(0.2) ? " " : "") + nl; }
  else { std::vector<std::pair<size_t, size_t>> e; double dens = g.pick({0.1, 0.4, 0.9, 1.0}); bool diag = g.coin(), upper = g.coin(0.2); for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) { if (sym != "general" && j > i) continue; if (sym == "skew-symmetric" && i == j) continue; if ((diag && i == j) || g.coin(dens)) { if (sym != "general" && upper && g.coin() && i < M && j < N) e.push_back({j, i}); else e.push_back({i, j}); } } if (g.coin()) g.shuffle(e);
    t += std::to_string(N) + ws(g, sloppy) + std::to_string(M) + ws(g, sloppy) + std::to_string(e.size()) + nl; for (auto& p : e) { t += (sloppy && g.coin(0.2) ? " " : "") + std::to_string(p.first + 1) + ws(g, sloppy) + std::to_string(p.second + 1); if (field != "pattern") { t += ws(g, sloppy) + numText(g, numI); if (two) t += ws(g, sloppy) + (sym == "hermitian" && p.first == p.second ? "0" : numText(g, numI)); } t += nl; } }
  if (g.coin(0.2) && !t.empty()) t.resize(t.size() - nl.size()); form = ty + " " + field + " " + sym; return t;
}
static std::string mutate(vh::Rng& g, std::string t) {
  std::string how; auto lines = [&] { std::vector<std::string> l; std::string c; for (char ch : t) { c += ch; if (ch == '\n') { l.push_back(c); c.clear(); } } if (!c.empty()) l.push_back(c); return l; }; auto join = [&](const std::vector<std::string>& l) { t.clear(); for (auto& x : l) t += x; };
  auto tokens = [&] { std::vector<std::pair<size_t, size_t>> k; size_t i = 0; while (i < t.size()) { while (i < t.size() && isspace((unsigned char)t[i])) ++i; size_t b = i; while (i < t.size() && !isspace((unsigned char)t[i])) ++i; if (i > b) k.push_back({b, i - b}); } return k; };
  if (t.empty()) return "x"; auto tk = tokens(); if (tk.empty()) return t; size_t late = g.coin() ? 0 : std::min<size_t>(5, tk.size() - 1); auto p = tk[g.range(late, tk.size() - 1)];
  switch (g.range(0, 12)) {
  case 0: t.resize(g.range(0, t.size() - 1)); break; case 1: t.erase(p.first, p.second); break; case 2: t.replace(p.first, p.second, g.pick({"0", "-1", "1.5", "x", "nan", "inf", "1e999", "7", "99", "4294967297", "18446744073709551615", "-18446744073709551615", "1d5", "0x10", "(1,2)", "1,5", "%", "1e", "+", "--1", "1.2.3", "1-2", "2147483648"})); break;
  case 3: t.insert(p.first, t.substr(p.first, p.second) + " "); break; case 4: { auto l = lines(); l.erase(l.begin() + g.range(0, l.size() - 1)); join(l); break; } case 5: { auto l = lines(); size_t k = g.range(0, l.size() - 1); l.insert(l.begin() + k, l[k]); join(l); break; } case 6: t[g.range(0, t.size() - 1)] = char(g.range(1, 255)); break; case 7: t.insert(t.begin() + g.range(0, t.size()), g.pick({' ', '\n', '1', '-', '.', '%', 'e', '\t', '\0', '\r'})); break; case 8: t.erase(g.range(0, t.size() - 1), 1); break;
  case 9: { auto q = g.pick(tk); std::string a = t.substr(p.first, p.second), b = t.substr(q.first, q.second); if (p.first > q.first) std::swap(p, q), std::swap(a, b); if (p.first != q.first) { t.replace(q.first, q.second, a); t.replace(p.first, p.second, b); } break; } case 10: t += g.pick({"1 1 1\n", "garbage", "% comment\n", "\n\n", "3", "\n1 2"}); break; case 11: { auto l = lines(); size_t a = g.range(0, l.size() - 1), b = g.range(0, l.size() - 1); std::swap(l[a], l[b]); join(l); break; }
  default: { for (auto& q : tk) if (q.first > 0 && t[q.first] != '%' && isdigit((unsigned char)t[q.first])) { long d = atol(t.substr(q.first, q.second).c_str()); if (g.coin(0.4)) { t.replace(q.first, q.second, std::to_string(std::max(0l, d + g.pick({-1l, 1l, -2l, 2l, 6l})))); break; } } break; } }
  return t;
}
struct Cerr { std::ostringstream o; std::streambuf* b; Cerr() : b(std::cerr.rdbuf(o.rdbuf())) {} ~Cerr() { std::cerr.rdbuf(b); } };
struct Dir { std::string d; Dir() { char b[] = "/tmp/c14.XXXXXX"; d = mkdtemp(b); } ~Dir() { for (auto& f : files) unlink(f.c_str()); rmdir(d.c_str()); } std::vector<std::string> files; std::string add(const std::string& f) { files.push_back(d + "/" + f); return files.back(); } };
template<class F> static bool attempt(F f, std::string& what) { try { f(); return true; } catch (const Dune::Exception& e) { what = e.what(); } catch (const std::exception& e) { what = e.what(); } return false; }

template<class K, class Read> static void judge(vh::Case& c, const std::string& text, const Denoted<K>& d, const std::string& nm, bool file, Read read) {
  if (d.huge) { c.sig("huge"); return; } Cerr quiet; std::string what, diff; bool ok = attempt([&] { diff = read(); }, what); std::string ctx = str(nm, " \"", text.substr(0, 500), "\""); Verdict v = d.v; if (d.trailing) v = file ? std::min(v, Invalid) : std::min(v, Lenient);
  if (v == Invalid) c.check(!ok, "malformed-file-accepted", str(d.trailing && d.v != Invalid ? "trailing data" : d.why, ": ", ctx)); if (v == Valid) c.check(ok, "valid-file-rejected", str(what, ": ", ctx)); if (ok && (v == Valid || v == Lenient)) c.check(diff.empty(), "read-differs", str(diff, ": ", ctx));
  if (ok && v != Invalid) c.check(d.banner == (quiet.o.str().find("banner") == std::string::npos), "silent-default", str("warning \"", quiet.o.str(), "\": ", ctx)); c.ev();
}
static const char* vname[] = {"invalid", "unspecified", "lenient", "valid"};
template<class B> static void texts(vh::Case& c, const char* nm, bool mut) {
  auto& g = c.rng; using K = typename Blk<B>::K; constexpr size_t br = Blk<B>::n, bc = Blk<B>::m; using M = BCRSMatrix<B>; std::string form; std::string t = makeText(g, false, br, bc, 1, std::is_integral_v<K>, isC<K>::value, form); if (mut) for (int k = g.range(1, g.coin(0.7) ? 1 : 3); k > 0; --k) t = mutate(g, t); c.note(str(nm, " ", form, "\n", t)); auto d = interpret<K>(t, false, br, bc, 1); M A; std::string tgt = "fresh"; if (g.coin(0.3)) { auto s = Sp<B>::rnd(g, 5); int mode = build(A, s, g); tgt = modeName(mode); }
  bool file = g.coin(0.3); if (!file) judge(c, t, d, nm, false, [&] { std::istringstream i(t); readMatrixMarket(A, i); return compareMatrix(A, d); }); else { Dir dir; std::string f = dir.add(g.pick({"a.mm", "b.mtx"})), base = g.coin() ? f : f.substr(0, f.rfind('.')); { std::ofstream o(f, std::ios::binary); o << t; } judge(c, t, d, nm, true, [&] { loadMatrixMarket(A, base); return compareMatrix(A, d); }); }
  { M C(A.N(), A.M(), M::random); } c.sig(str(nm, form, vname[d.v], d.why, d.rows, d.cols, d.e.size(), d.trailing, file, tgt));
}
template<class V, class K, size_t bs, size_t lanes> static void vtexts(vh::Case& c, const char* nm, bool mut) {
  auto& g = c.rng; std::string form; std::string t = makeText(g, true, bs, 1, lanes, std::is_integral_v<K>, isC<K>::value, form); if (mut) for (int k = g.range(1, g.coin(0.7) ? 1 : 3); k > 0; --k) t = mutate(g, t); c.note(str(nm, " ", form, "\n", t)); auto d = interpret<K>(t, true, bs, 1, lanes); V v(g.range(0, 4));
  auto cmp = [&]() -> std::string { if constexpr (lanes == 1) return compareVector(v, d.a); else { std::vector<K> h; for (size_t l = 0; l < lanes; ++l) for (auto& x : v) for (auto& y : Dune::Impl::asVector(x)) h.push_back(Simd::lane(l, y)); if (h.size() != d.a.size()) return "size"; for (size_t i = 0; i < h.size(); ++i) if (!equal(h[i], d.a[i])) return str("lane entry ", i, " is ", h[i], " instead of ", d.a[i]); return ""; } };
  bool file = g.coin(0.3); if (!file) judge(c, t, d, nm, false, [&] { std::istringstream i(t); readMatrixMarket(v, i); return cmp(); }); else { Dir dir; std::string f = dir.add("a.mm"); { std::ofstream o(f, std::ios::binary); o << t; } judge(c, t, d, nm, true, [&] { loadMatrixMarket(v, dir.d + "/a"); return cmp(); }); }
  c.sig(str(nm, form, vname[d.v], d.why, d.rows, d.cols, d.trailing, file));
}
template<class K> static K rounded(const K& v, int prec) { if constexpr (isC<K>::value) { return K(rounded(v.real(), prec), rounded(v.imag(), prec)); } else if constexpr (std::is_integral_v<K>) return v; else { char b[512]; snprintf(b, 512, "%.*e", prec, double(v)); if constexpr (sizeof(K) == 4) return strtof(b, nullptr); else return strtod(b, nullptr); } }
template<class K> static bool overflowsWhenRounded(const K& v, int p) { K r = rounded(v, p); return !std::isfinite(dabs1(r)); }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
template<class T, class Write, class Store, class Check> static void roundTrip(vh::Case& c, const std::string& nm, int full, Write w, Store store, Check check) {
  auto& g = c.rng; bool exact = g.coin(0.7); int prec = exact ? full : g.range(1, 8);
  if (g.coin()) { std::ostringstream o; o.precision(prec); o << std::scientific; w(o); check(o.str(), prec, std::string()); }
  else { Dir dir; static const char* exts[] = {"", ".mm", ".mtx"}; std::string base = g.pick({"m", "m.v2", "x.y.z", "m.mm.dat"}), ext = exts[g.range(0, 2)]; std::string f = dir.add(base + (ext.empty() ? ".mm" : ext)); bool dflt = !exact && g.coin(); Cerr q; store(dir.d + "/" + base + ext, dflt ? -1 : prec); std::string t = slurp(f); c.check(!t.empty(), nm + "/nothing-stored", f); check(t, dflt ? 6 : prec, dir.d + "/" + base + ext); }
}
template<class B> static void matrixTrip(vh::Case& c, const char* nm) {
  auto& g = c.rng; using K = typename Blk<B>::K; using M = BCRSMatrix<B>; constexpr size_t br = Blk<B>::n, bc = Blk<B>::m; size_t N = g.coin(0.06) ? 0 : g.range(1, 7), Mc = g.coin(0.06) ? 0 : g.range(1, 7); std::string k; auto pt = randPattern(g, N, Mc, false, &k); int full = sizeof(typename Real<K>::T) == 4 ? 8 : 16; auto s = Sp<B>::make(g, N, Mc, pt, [](vh::Rng& r) { return value<K>(r); }); M A; int mode = build(A, s, g); c.note(str(nm, " ", N, "x", Mc, " ", k, " ", modeName(mode))); c.sig(str(nm, N, Mc, k, s.v.size(), modeName(mode)));
  roundTrip<M>(c, nm, full, [&](std::ostream& o) { writeMatrixMarket(A, o); }, [&](const std::string& f, int p) { if (p < 0) storeMatrixMarket(A, f); else storeMatrixMarket(A, f, p); }, [&](const std::string& t, int prec, const std::string& f) {
    Denoted<K> want; want.rows = N * br; want.cols = Mc * bc; bool over = false; for (auto& e : s.v) { DM<K> D(br, bc); Blk<B>::put(e.second, D, 0, 0); for (size_t i = 0; i < br; ++i) for (size_t j = 0; j < bc; ++j) { want.e[{e.first.first * br + i, e.first.second * bc + j}] = rounded(D(i, j), prec); over |= overflowsWhenRounded(D(i, j), prec); } }
    auto d = interpret<K>(t, false, br, bc, 1); if (!over) { c.check(d.v == Valid && d.banner && !d.trailing, "written-file-malformed", str(d.why, ": ", t)); bool eq = d.rows == want.rows && d.cols == want.cols && d.e.size() == want.e.size(); if (eq) for (auto& e : want.e) { auto h = d.e.find(e.first); if (h == d.e.end() || !same(h->second, e.second)) eq = false; } c.check(eq, "written-file-differs", t); c.check((d.form.find("complex") != std::string::npos) == isC<K>::value && (d.form.find("integer") != std::string::npos) == std::is_integral_v<K>, "written-field", d.form); }
    M C; std::string what; Cerr q; bool ok = attempt([&] { if (f.empty()) { std::istringstream i(t); readMatrixMarket(C, i); } else loadMatrixMarket(C, f); }, what); if (over) return; if (c.check(ok, "round-trip-rejected", str(what, " ", t))) { auto df = compareMatrix(C, want); c.check(df.empty(), "round-trip-differs", df + " " + t); } });
}
template<class V, class K, size_t bs, size_t lanes> static void vectorTrip(vh::Case& c, const char* nm) {
  auto& g = c.rng; size_t N = g.coin(0.08) ? 0 : g.range(1, 12); V v(N); std::vector<K> raw(N * bs * lanes); for (auto& x : raw) x = value<K>(g); size_t p = 0; if constexpr (lanes == 1) assign(v, raw); else for (size_t l = 0; l < lanes; ++l) for (auto& x : v) for (auto& y : Dune::Impl::asVector(x)) Simd::lane(l, y) = raw[p++]; int full = sizeof(typename Real<K>::T) == 4 ? 8 : 16; c.note(str(nm, " ", N)); c.sig(str(nm, N, show(raw, 3)));
  roundTrip<V>(c, nm, full, [&](std::ostream& o) { writeMatrixMarket(v, o); }, [&](const std::string& f, int p) { if (p < 0) storeMatrixMarket(v, f); else storeMatrixMarket(v, f, p); }, [&](const std::string& t, int prec, const std::string& f) {
    bool over = false; std::vector<K> want; for (auto& x : raw) want.push_back(rounded(x, prec)), over |= overflowsWhenRounded(x, prec); auto d = interpret<K>(t, true, bs, 1, lanes); if (over) return; c.check(d.v == Valid && d.banner && !d.trailing, "written-file-malformed", str(d.why, ": ", t)); bool eq = d.a.size() == want.size(); if (eq) for (size_t i = 0; i < want.size(); ++i) if (!same(d.a[i], want[i])) eq = false; c.check(eq, "written-file-differs", t);
    V z(g.range(0, 3)); std::string what; Cerr q; bool ok = attempt([&] { if (f.empty()) { std::istringstream i(t); readMatrixMarket(z, i); } else loadMatrixMarket(z, f); }, what); if (!c.check(ok, "round-trip-rejected", str(what, " ", t))) return; if constexpr (lanes == 1) { auto df = compareVector(z, want); c.check(df.empty(), "round-trip-differs", df + " " + t); } else { size_t q = 0; bool e = z.size() == N; if (e) for (size_t l = 0; l < lanes; ++l) for (auto& x : z) for (auto& y : Dune::Impl::asVector(x)) e &= equal(K(Simd::lane(l, y)), want[q++]); c.check(e, "round-trip-differs", t); } });
}
using C = std::complex<double>; using CF = std::complex<float>; using S4 = LoopSIMD<double, 4>;
#define FORM(f, ...) switch (g.range(0, 10)) { case 0: f<double>(c, "double" __VA_ARGS__); break; case 1: f<float>(c, "float" __VA_ARGS__); break; case 2: f<int>(c, "int" __VA_ARGS__); break; case 3: f<C>(c, "complex" __VA_ARGS__); break; case 4: f<FieldMatrix<double, 1, 1>>(c, "1x1" __VA_ARGS__); break; case 5: f<FieldMatrix<double, 2, 2>>(c, "2x2" __VA_ARGS__); break; case 6: f<FieldMatrix<double, 3, 2>>(c, "3x2" __VA_ARGS__); break; case 7: f<FieldMatrix<C, 2, 2>>(c, "complex2x2" __VA_ARGS__); break; case 8: f<FieldMatrix<float, 2, 3>>(c, "float2x3" __VA_ARGS__); break; case 9: f<FieldMatrix<CF, 1, 1>>(c, "cfloat1x1" __VA_ARGS__); break; default: f<FieldMatrix<int, 2, 1>>(c, "int2x1" __VA_ARGS__); }
#define COMMA ,
#define VFORM(f, ...) switch (g.range(0, 9)) { case 0: f<BlockVector<double>, double, 1, 1>(c, "double" __VA_ARGS__); break; case 1: f<BlockVector<float>, float, 1, 1>(c, "float" __VA_ARGS__); break; case 2: f<BlockVector<int>, int, 1, 1>(c, "int" __VA_ARGS__); break; case 3: f<BlockVector<C>, C, 1, 1>(c, "complex" __VA_ARGS__); break; case 4: f<BlockVector<FieldVector<double, 1>>, double, 1, 1>(c, "1" __VA_ARGS__); break; case 5: f<BlockVector<FieldVector<double, 3>>, double, 3, 1>(c, "3" __VA_ARGS__); break; case 6: f<BlockVector<FieldVector<C, 2>>, C, 2, 1>(c, "complex2" __VA_ARGS__); break; case 7: f<BlockVector<S4>, double, 1, 4>(c, "simd4" __VA_ARGS__); break; case 8: f<BlockVector<FieldVector<S4, 2>>, double, 2, 4>(c, "simd4x2" __VA_ARGS__); break; default: f<BlockVector<FieldVector<CF, 1>>, CF, 1, 1>(c, "cfloat1" __VA_ARGS__); }
VGROUP("matrix-round-trip", 1500, 20000) { auto& g = c.rng; FORM(matrixTrip) }
VGROUP("vector-round-trip", 1000, 12000) { auto& g = c.rng; VFORM(vectorTrip) }
VGROUP("matrix-forms", 2000, 40000) { auto& g = c.rng; FORM(texts, COMMA false) }
VGROUP("vector-forms", 800, 10000) { auto& g = c.rng; VFORM(vtexts, COMMA false) }
VGROUP("matrix-corrupted", 8000, 150000) { auto& g = c.rng; FORM(texts, COMMA true) }
VGROUP("vector-corrupted", 4000, 60000) { auto& g = c.rng; VFORM(vtexts, COMMA true) }
VGROUP("truncated-everywhere", 60, 1500) { // every prefix of a file
  auto& g = c.rng; using M = BCRSMatrix<FieldMatrix<double, 2, 2>>; std::string form, t = makeText(g, false, 2, 2, 1, false, false, form); c.note(t); c.sig(t);
  for (size_t n = 0; n < t.size(); ++n) { std::string u = t.substr(0, n); auto d = interpret<double>(u, false, 2, 2, 1); M A; judge(c, u, d, "2x2", false, [&] { std::istringstream i(u); readMatrixMarket(A, i); return compareMatrix(A, d); }); }
}
VGROUP("several-objects-in-a-stream", 200, 3000) {
  auto& g = c.rng; using M = BCRSMatrix<FieldMatrix<double, 2, 2>>; using V = BlockVector<FieldVector<double, 2>>; std::stringstream s; s.precision(16); s << std::scientific; size_t n = g.range(1, 4); std::vector<M> ms; std::vector<V> vs; std::string kinds; for (size_t i = 0; i < n; ++i) if (g.coin()) { auto sp = Sp<FieldMatrix<double, 2, 2>>::rndNM(g, g.range(1, 4), g.range(1, 4), false); ms.push_back(built<M>(sp, g)); writeMatrixMarket(ms.back(), s); kinds += 'm'; } else { V v(g.range(1, 4)); assign(v, randVec<double>(g, 2 * v.N(), false)); vs.push_back(v); writeMatrixMarket(v, s); kinds += 'v'; } c.note(kinds); c.sig(s.str());
  size_t im = 0, iv = 0; for (char k : kinds) { std::string what; bool ok = attempt([&] { if (k == 'm') { M A; readMatrixMarket(A, s); auto& B = ms[im++]; bool e = A.N() == B.N() && A.M() == B.M() && A.nonzeroes() == B.nonzeroes(); if (e) for (size_t i = 0; i < B.N(); ++i) for (auto j = B[i].begin(); j != B[i].end(); ++j) e = e && A.exists(i, j.index()) && A[i][j.index()] == *j; c.check(e, "matrix-differs", kinds); } else { V v; readMatrixMarket(v, s); auto& w = vs[iv++]; c.check(flatten<double>(v) == flatten<double>(w), "vector-differs", kinds); } }, what); if (!c.check(ok, "rejected", kinds + ": " + what)) break; }
}
VGROUP("file-faults", 120, 600) { // missing, unreadable and unwritable files are reported
  auto& g = c.rng; using M = BCRSMatrix<double>; using V = BlockVector<FieldVector<double, 1>>; auto s = Sp<double>::rndNM(g, g.range(1, 5), g.range(1, 5), false); M A = built<M>(s, g); V v(3); v = 1.0; if (g.coin(0.3)) { v.resize(3000); v = 1.0 / 3; } Dir dir; bool mat = g.coin(); int f = g.range(0, 3); c.note(str(f, mat)); c.sig(str(f, mat, s.v.size(), v.N())); std::string what; Cerr q; bool ok;
  auto load = [&](const std::string& n) { return attempt([&] { if (mat) { M B; loadMatrixMarket(B, n); } else { V w; loadMatrixMarket(w, n); } }, what); }; auto store = [&](const std::string& n) { return attempt([&] { if (mat) storeMatrixMarket(A, n, 17); else storeMatrixMarket(v, n); }, what); };
  if (f == 0) { ok = load(dir.d + "/none" + g.pick({"", ".mm", ".mtx"})); c.check(!ok, "missing-file", "no exception"); }
  if (f == 1) { std::string p = dir.d + "/d.mm"; mkdir(p.c_str(), 0700); ok = load(dir.d + "/d"); c.check(!ok, "directory-read", "no exception"); ok = store(dir.d + "/d"); c.check(!ok, "directory-written", "no exception"); rmdir(p.c_str()); }
  if (f == 2) { ok = store(dir.d + "/no/such/dir/x" + g.pick({"", ".mm"})); c.check(!ok, "unwritable-path", "no exception"); }
  if (f == 3) { if (access("/dev/full", W_OK)) return; std::string p = dir.add("full.mtx"); if (symlink("/dev/full", p.c_str())) return; ok = store(p); c.check(!ok, "write-error-ignored", str("the device is full, but ", mat ? "the matrix" : "the vector", " counts as stored")); }
}
