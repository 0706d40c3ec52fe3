// C22: histories of MatrixIndexSet operations against a set model.
#include "ref.hh"
#include "track.hh"
using namespace ref;
using IS = Dune::MatrixIndexSet;
using Model = std::vector<std::set<size_t>>;

template<class M> std::string checkSet(const IS& s, const M& p, size_t rows, size_t cols) {
  if (s.rows() != rows || s.cols() != cols) return vh::str("dims ", s.rows(), "x", s.cols(), " expected ", rows, "x", cols);
  if (s.size() != nnz(p)) return vh::str("size() ", s.size(), " expected ", nnz(p));
  for (size_t i = 0; i < rows; ++i) {
    if (s.rowsize(i) != p[i].size()) return vh::str("rowsize(", i, ") ", s.rowsize(i), " expected ", p[i].size());
    std::vector<size_t> seen, want(p[i].begin(), p[i].end());
    std::visit([&](const auto& r) { for (auto j : r) seen.push_back(j); }, s.columnIndices(i));
    if (seen != want) { for (size_t k = 0; k < std::max(seen.size(), want.size()); ++k) if (k >= seen.size() || k >= want.size() || seen[k] != want[k]) return vh::str("row ", i, " position ", k, ": ", k < seen.size() ? long(seen[k]) : -1l, " expected ", k < want.size() ? long(want[k]) : -1l, " of ", seen.size(), "/", want.size()); }
    for (auto j : want) if (!std::visit([&](const auto& r) { return r.contains(j); }, s.columnIndices(i))) return vh::str("contains(", i, ",", j, ") false");
  }
  return "";
}
template<class Mat> std::string checkExport(const Mat& A, const Model& p, size_t rows, size_t cols) {
  if (A.N() != rows || A.M() != cols) return vh::str("exported size ", A.N(), "x", A.M());
  if (A.buildStage() != Mat::built) return "export not built";
  if (A.nonzeroes() != nnz(p)) return vh::str("exported nonzeroes ", A.nonzeroes(), " expected ", nnz(p));
  size_t r = 0;
  for (auto i = A.begin(); i != A.end(); ++i, ++r) { auto q = p[r].begin();
    for (auto j = i->begin(); j != i->end(); ++j, ++q) { if (q == p[r].end()) return vh::str("export row ", r, " too long"); if (j.index() != *q) return vh::str("export row ", r, " column ", j.index(), " expected ", *q); }
    if (q != p[r].end()) return vh::str("export row ", r, " too short"); }
  if (r != rows) return "export row count";
  return "";
}
// bring a matrix into some prior state before an export
template<class Mat> std::string prior(Mat& A, vh::Rng& g, bool& implicit) {
  using B = typename Mat::block_type; implicit = false;
  switch (g.range(0, 5)) {
    case 0: case 1: return "fresh";
    case 2: { auto s = Sp<B>::rnd(g, 8); int m = g.pick({(int)RowKnown, (int)RowUnknown, (int)Random, (int)RandomNnz, (int)SetIdx}); build(A, s, g, m); return vh::str("built-", modeName(m)); }
    case 3: { auto s = Sp<B>::rnd(g, 8); build(A, s, g, IdxSet); return "exported-before"; }
    case 4: A.setBuildMode(Mat::random); A.setSize(g.range(0, 5), g.range(0, 5)); return "half-built";
    default: { auto s = Sp<B>::rnd(g, 8); build(A, s, g, Implicit); implicit = true; return "implicit"; }
  }
}
template<class B> void exportAndCheck(vh::Case& c, const IS& s, const Model& p, size_t R, size_t C, std::string& tr) {
  using Mat = Dune::BCRSMatrix<B>; auto& g = c.rng; Mat A; bool imp; std::string st = prior(A, g, imp); tr += "E(" + st + ")";
  c.note(tr);
  try { s.exportIdx(A); }
  catch (const Dune::InvalidStateException&) { if (!imp) c.fail("export-throws", "exportIdx threw into a matrix that was " + st); return; }
  auto e = checkExport(A, p, R, C); if (!c.check(e.empty(), "export", e)) return;
  // the exported matrix is usable: values can be written at every entry and the matrix is independent of the set
  Blk<B> dummy; (void)dummy; DM<typename Blk<B>::K> D(Blk<B>::n, Blk<B>::m);
  std::map<std::pair<size_t, size_t>, B> v;
  for (size_t i = 0; i < R; ++i) for (auto j : p[i]) { B b = Blk<B>::make(g, D, 0, 0, [](vh::Rng& r) { return smallInt<typename Blk<B>::K>(r); }); v[{i, j}] = b; A[i][j] = b; }
  for (auto& x : v) if (!(A[x.first.first][x.first.second] == x.second)) { c.fail("export-values", vh::str("entry ", x.first.first, ",", x.first.second)); return; }
  // round trip through import
  IS t(R, C, IS::size_type(g.range(0, 4))); t.import(A); e = checkSet(t, p, R, C); c.check(e.empty(), "export-import", e);
}
template<class B> bool importOne(vh::Case& c, IS& s, Model& p, size_t R, size_t C, std::string& tr) {
  auto& g = c.rng; size_t N = g.range(0, R), M = g.range(0, C);
  auto m = Sp<B>::rndNM(g, N, M); Dune::BCRSMatrix<B> A; int mode = build(A, m, g);
  size_t ro = g.range(0, R - N), co = g.range(0, C - M);
  tr += vh::str("I", N, "x", M, "@", ro, ",", co, modeName(mode), "nnz", m.v.size(), ";"); c.note(tr);
  if (ro == 0 && co == 0 && g.coin()) s.import(A); else if (co == 0 && g.coin()) s.import(A, ro); else s.import(A, ro, co);
  for (size_t i = 0; i < N; ++i) for (auto j : m.p[i]) p[i + ro].insert(j + co);
  auto e = compare(A, m); return c.check(e.empty(), "import-changed-matrix", e);
}

VGROUP("history", 20000, 200000) {
  auto& g = c.rng; size_t R = g.range(0, 9), C = g.range(0, 12);
  long mv = g.pick({-1l, 0l, 1l, 2l, 3l, 5l, 8l, 100l}); long heap0 = heapBytes();
  {
  std::unique_ptr<IS> s; std::string tr = vh::str("max=", mv, " ");
  if (g.coin(0.2)) { s = mv < 0 ? std::make_unique<IS>() : std::make_unique<IS>(IS::size_type(mv)); tr += "default;"; c.note(tr); auto e = checkSet(*s, Model(), 0, 0); c.check(e.empty(), "default", e); s->resize(R, C); }
  else s = mv < 0 ? std::make_unique<IS>(R, C) : std::make_unique<IS>(R, C, IS::size_type(mv));
  tr += vh::str(R, "x", C, ";"); Model p(R); std::string sig = vh::str(mv < 0 ? "def" : mv > 8 ? "big" : std::to_string(mv));
  // a copy of the set taken at some point, with its own model
  std::unique_ptr<IS> cp; Model cpP; size_t cR = 0, cC = 0;
  for (long step = g.range(1, 14); step > 0 && !c.failed; --step) {
    switch (g.range(0, 9)) {
      case 0: case 1: case 2: if (R && C) { long n = g.range(1, 12); int ord = g.range(0, 3); size_t row = g.range(0, R - 1); std::vector<std::pair<size_t, size_t>> e;
          for (long k = 0; k < n; ++k) e.push_back({g.coin(0.7) ? row : g.range(0, R - 1), size_t(g.range(0, C - 1))});
          if (ord == 1) std::sort(e.begin(), e.end()); if (ord == 2) std::sort(e.rbegin(), e.rend());
          tr += "A"; for (auto& x : e) { tr += vh::str("(", x.first, ",", x.second, ")"); c.note(tr); s->add(x.first, x.second); p[x.first].insert(x.second); } sig += vh::str("A", ord); } break;
      case 3: if (R && C) { size_t row = g.range(0, R - 1); tr += vh::str("fill", row, ";"); c.note(tr); for (size_t j = 0; j < C; ++j) { size_t k = (j * 7 + 3) % C; s->add(row, k); p[row].insert(k); } for (size_t j = 0; j < C; ++j) { s->add(row, j); p[row].insert(j); } sig += "F"; } break;
      case 4: importOne<double>(c, *s, p, R, C, tr); sig += "I"; break;
      case 5: importOne<Dune::FieldMatrix<double, 2, 2>>(c, *s, p, R, C, tr); sig += "I"; break;
      case 6: { size_t nR = g.range(0, 12), used = 0; for (size_t i = 0; i < std::min(nR, R); ++i) if (!p[i].empty()) used = std::max(used, *p[i].rbegin() + 1);
          size_t nC = g.range(used, used + 8); tr += vh::str("R", nR, "x", nC, ";"); c.note(tr); s->resize(nR, nC); sig += nR > R ? "Rg" : "Rs"; R = nR; C = nC; p.resize(R); } break;
      case 7: exportAndCheck<double>(c, *s, p, R, C, tr); sig += "E"; break;
      case 8: exportAndCheck<Dune::FieldMatrix<double, 1, 2>>(c, *s, p, R, C, tr); sig += "E"; break;
      case 9: if (!cp || g.coin()) { tr += "copy;"; c.note(tr); if (cp && g.coin()) *cp = *s; else cp = std::make_unique<IS>(*s); cpP = p; cR = R; cC = C; sig += "C"; }
              else { tr += "restore;"; c.note(tr); if (g.coin()) { *s = *cp; } else { *s = std::move(*cp); cp.reset(); } p = cpP; R = cR; C = cC; sig += "M"; } break;
    }
    auto e = checkSet(*s, p, R, C); c.check(e.empty(), "set", e);
    if (cp) { e = checkSet(*cp, cpP, cR, cC); c.check(e.empty(), "copy", e); }
  }
  exportAndCheck<double>(c, *s, p, R, C, tr);
  c.sig(vh::str(sig, " ", R, "x", C, " nnz", nnz(p)));
  }
  c.desc.clear(); c.desc.shrink_to_fit(); (void)heap0;
}
// rows crossing the default storage threshold
VGROUP("threshold", 60, 600) {
  auto& g = c.rng; long lim = g.coin(0.6) ? long(IS::defaultMaxVectorSize) : g.range(30, 300); size_t R = g.range(1, 4), C = lim + g.range(1, 400);
  IS s = lim == long(IS::defaultMaxVectorSize) ? IS(R, C) : IS(R, C, IS::size_type(lim)); Model p(R); int ord = g.range(0, 2); std::string tr;
  for (size_t i = 0; i < R; ++i) { long n = std::min<long>(C, std::max<long>(0, lim + g.range(-2, 3))); if (g.coin(0.3)) n = g.range(0, C);
    std::vector<size_t> e(C); for (size_t j = 0; j < C; ++j) e[j] = j; g.shuffle(e); e.resize(n); if (ord == 1) std::sort(e.begin(), e.end()); if (ord == 2) std::sort(e.rbegin(), e.rend());
    std::vector<size_t> dup; for (int k = 0; k < 20 && n; ++k) dup.push_back(g.pick(e)); tr += vh::str(" n=", n - lim); c.note(vh::str("limit ", lim, " C=", C, " order ", ord, tr));
    for (auto j : e) { s.add(i, j); p[i].insert(j); } for (auto j : dup) s.add(i, j); 
    if (g.coin(0.5)) for (int k = 0; k < 5; ++k) { size_t j = g.range(0, C - 1); s.add(i, j); p[i].insert(j); for (auto d : dup) s.add(i, d); } }
  auto e = checkSet(s, p, R, C); c.check(e.empty(), "set", e); std::string t = c.desc;
  exportAndCheck<double>(c, s, p, R, C, t); c.sig(vh::str(lim, " ", R, " ", ord, tr));
}
