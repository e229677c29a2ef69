// In-place matrix operations, construction routes and queries
#include "ref.hpp"
#include "wide.hpp"
#include "blockmatrices.hpp"
#include <boost/align/aligned_alloc.hpp>
using namespace ref;
static int g_dev = -1;
using namespace blasted;

template <int bs> static const SRMatrixStorage<double,int>& storage_of(const BSRMatrix<double,int,bs>& A) { return A.getRawSRMatrix(); }
template <class T> static T* al(const std::vector<T>& v) { T* p = (T*)boost::alignment::aligned_alloc(64, v.size() * sizeof(T)); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T)); return p; }

// the matrix must hold exactly m (positions without a diagonal: diagind not looked at)
template <int bs> static void holds(const BSRMatrix<double,int,bs>& A, const Mat& m, const char* what, bool vals = true) {
  auto& s = storage_of<bs>(A);
  if (A.dim() != m.N()) mc::fail(mc::fmt("%s: dim() is %d, should be %d", what, (int)A.dim(), m.N()));
  if (s.nbrows != m.n || s.nnzb != m.nnz() || s.nbstored != m.nnz()) mc::fail(mc::fmt("%s: %d rows, %d non-zero and %d stored blocks, should be %d, %d, %d", what, s.nbrows, s.nnzb, s.nbstored, m.n, m.nnz(), m.nnz()));
  for (int i = 0; i <= m.n; i++) if (s.browptr[i] != m.rp[i]) mc::fail(mc::fmt("%s: row pointer %d is %d, should be %d", what, i, s.browptr[i], m.rp[i]));
  for (int i = 0; i < m.n; i++) {
    if (s.browendptr[i] != m.rp[i + 1]) mc::fail(mc::fmt("%s: row end %d is %d, should be %d", what, i, s.browendptr[i], m.rp[i + 1]));
    if (m.di[i] >= 0 && s.diagind[i] != m.di[i]) mc::fail(mc::fmt("%s: diagonal position %d is %d, should be %d", what, i, s.diagind[i], m.di[i]));
  }
  for (int p = 0; p < m.nnz(); p++) if (s.bcolind[p] != m.ci[p]) mc::fail(mc::fmt("%s: column of entry %d is %d, should be %d", what, p, s.bcolind[p], m.ci[p]));
  if (vals) for (size_t k = 0; k < m.v.size(); k++) if (!(s.vals[k] == m.v[k])) mc::fail(mc::fmt("%s: value %zu is %.15g, should be %.15g", what, k, s.vals[k], m.v[k]));
  mc::trans_add(1); mc::observe(mc::hash(&s.vals[0], m.v.size() * 8));
}
static bool full(const Mat& m) { for (int d : m.di) if (d < 0) return false; return true; }

static void same(const std::array<bool,5>& got, const Mat& a, const Mat& b, double tol, const char* what) {
  bool eq = a.n == b.n && a.rp == b.rp && a.ci == b.ci; bool ve = true;
  if (a.v.size() == b.v.size()) { for (size_t k = 0; k < a.v.size(); k++) if (std::fabs(a.v[k] - b.v[k]) > tol) ve = false; } else ve = false;
  bool all = got[0] && got[1] && got[2] && got[3] && got[4];
  if (all != (eq && ve && a.di == b.di)) mc::fail(mc::fmt("%s: matrices reported %s", what, all ? "equal but they differ" : "different but they are equal"));
  if (got[0] != (a.n == b.n)) mc::fail(mc::fmt("%s: wrong verdict on the number of rows", what));
  if (a.n != b.n) return;
  if (got[1] != (a.rp == b.rp)) mc::fail(mc::fmt("%s: wrong verdict on the row pointers", what));
  if (a.ci.size() != b.ci.size()) return;
  if (got[2] != (a.ci == b.ci)) mc::fail(mc::fmt("%s: wrong verdict on the columns", what));
  if (got[3] != ve) mc::fail(mc::fmt("%s: wrong verdict on the values", what));
  if (got[4] != (a.di == b.di)) mc::fail(mc::fmt("%s: wrong verdict on the diagonal positions", what));
}
template <int bs> static void diag_queries(const BSRMatrix<double,int,bs>&, const Mat&) {}
static void diag_queries(const BSRMatrix<double,int,1>& A, const Mat& m) {
  int zr = -1; size_t nz = 0; double prod = 1, sum = 0, mn = INFINITY, mx = 0;
  for (int i = 0; i < m.n; i++) { double d = m.v[m.di[i]]; if (d == 0) { if (zr < 0) zr = i; nz++; } prod *= d; sum += std::fabs(d); mn = std::min(mn, std::fabs(d)); mx = std::max(mx, std::fabs(d)); }
  if (A.zeroDiagonalRow() != zr) mc::fail(mc::fmt("zeroDiagonalRow is %d, should be %d", A.zeroDiagonalRow(), zr));
  if (A.getNumZeroDiagonals() != nz) mc::fail(mc::fmt("getNumZeroDiagonals is %zu, should be %zu", A.getNumZeroDiagonals(), nz));
  if (!close(A.getDiagonalProduct(), prod)) mc::fail(mc::fmt("getDiagonalProduct is %g, should be %g", A.getDiagonalProduct(), prod));
  if (!close(A.getDiagonalAbsSum(), sum)) mc::fail(mc::fmt("getDiagonalAbsSum is %g, should be %g", A.getDiagonalAbsSum(), sum));
  if (A.getAbsMinDiagonalEntry() != mn) mc::fail(mc::fmt("getAbsMinDiagonalEntry is %g, should be %g", A.getAbsMinDiagonalEntry(), mn));
  if (A.getAbsMaxDiagonalEntry() != mx) mc::fail(mc::fmt("getAbsMaxDiagonalEntry is %g, should be %g", A.getAbsMaxDiagonalEntry(), mx));
}

template <int bs> static void ops(mc::Runner& R, const std::vector<std::vector<int>>& pat, int seed, int T) {
  const Mat m = make(pat, bs, true, seed); bool fd = full(m);
  Mat zero = m; for (auto& x : zero.v) x = 0;
  Mat dz = m; for (int i = 0; i < m.n; i++) if (m.di[i] >= 0) for (int k = 0; k < bs * bs; k++) dz.v[(size_t)m.di[i] * bs * bs + k] = 0;
  Mat sc = m; for (auto& x : sc.v) x *= -2.5;
  mc::Cfg c; c.threads = T; c.preempt = 2; c.deviations = g_dev; c.check_leaks = true;
  typedef BSRMatrix<double,int,bs> M;
  // construction routes
  R.explore(c, [&]() {
    In in(m);
    {
      M E; (void)E;
      M A(m.n, in.ci, in.rp); holds<bs>(A, m, "structure constructor", false);
      A.setAllZero(); holds<bs>(A, zero, "setAllZero after the structure constructor");
      M S; S.setStructure(m.n, in.ci, in.rp); holds<bs>(S, m, "setStructure", false);
      S.setAllZero(); holds<bs>(S, zero, "setAllZero after setStructure");
      S.setStructure(m.n, in.ci, in.rp); holds<bs>(S, m, "second setStructure", false);
      S.setAllZero();
      { // two matrices of the same structure and the same values, whatever memory they happened to get
        auto e = A.isEqual(S, 0.0); for (int q = 0; q < 5; q++) if (!e[q]) mc::fail(mc::fmt("isEqual[%d] is false for two matrices of the same structure and values", q)); mc::trans_add(1);
      }
      for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) S.submitBlock(i * bs, m.ci[p] * bs, in.v + (size_t)p * bs * bs, 1, 1);
      holds<bs>(S, m, "assembled matrix");
      { M B(S); auto e = S.isEqual(B, 0.0); for (int q = 0; q < 5; q++) if (!e[q]) mc::fail(mc::fmt("isEqual[%d] is false for a matrix and its copy", q)); mc::trans_add(1); }
      M W(m.n, in.rp, in.ci, in.v, in.di); holds<bs>(W, m, "wrapping constructor");
      M C(W); holds<bs>(C, m, "copy of a wrapping matrix"); M D(C); holds<bs>(D, m, "copy of a copy");
      C.setAllZero(); holds<bs>(C, zero, "copy set to zero"); holds<bs>(W, m, "original after changing its copy"); holds<bs>(D, m, "second copy after changing the first");
      D.scaleAll(-2.5); holds<bs>(D, sc, "scaled copy"); holds<bs>(C, zero, "zeroed copy after changing its copy");
      if (fd) { M G(W); G.setDiagZero(); holds<bs>(G, dz, "setDiagZero"); G.setDiagZero(); holds<bs>(G, dz, "setDiagZero twice"); }
      SRMatrixStorage<double,int> st(in.rp, in.ci, in.v, in.di, in.rp + 1, m.n, m.nnz(), m.nnz(), bs);
      M X(std::move(st)); holds<bs>(X, m, "matrix from a storage object");
      RawBSRMatrix<double,int> raw; if (raw.nbrows != 0 || raw.nnzb != 0 || raw.nbstored != 0) mc::fail("a default raw matrix is not empty");
      int* rp = al(m.rp); raw = RawBSRMatrix<double,int>(rp, al(m.ci), al(m.v), al(m.di), rp + 1, m.n, m.nnz(), m.nnz());
      M Y(raw); holds<bs>(Y, m, "matrix from a raw matrix");
      if (raw.nbrows || raw.browptr || raw.bcolind || raw.vals || raw.diagind || raw.browendptr || raw.nnzb || raw.nbstored) mc::fail("the raw matrix was not nulled by the transfer");
      Y.scaleAll(-2.5); holds<bs>(Y, sc, "scaleAll"); Y.setAllZero(); holds<bs>(Y, zero, "setAllZero");
    }
    in.unchanged(); in.free_all();
  });
  // every kind of factor
  R.explore(c, [&]() {
    In in(m);
    {
      M W(m.n, in.rp, in.ci, in.v, in.di);
      for (double f : {0.0, 1.0, -1.0, 0.5, 1073741824.0, 1e-12}) { Mat w = m; for (auto& x : w.v) x *= f; M C(W); C.scaleAll(f); holds<bs>(C, w, mc::fmt("scaleAll(%g)", f).c_str()); }
    }
    in.unchanged(); in.free_all();
  });
  // wrapping matrices change the wrapped arrays, in place
  R.explore(c, [&]() {
    In in(m, false);
    {
      M W(m.n, in.rp, in.ci, in.v, in.di);
      W.scaleAll(-2.5); holds<bs>(W, sc, "scaleAll of a wrapping matrix");
      for (size_t k = 0; k < m.v.size(); k++) { if (in.v[k] != sc.v[k]) mc::fail("scaleAll of a wrapping matrix did not change the wrapped values"); in.v[k] = m.v[k]; }
      if (fd) { W.setDiagZero(); holds<bs>(W, dz, "setDiagZero of a wrapping matrix"); }
      W.setAllZero(); holds<bs>(W, zero, "setAllZero of a wrapping matrix");
    }
    in.free_all();
  });
  if (!fd) return;
  // queries: every subset of zero diagonals, mixed signs
  if (bs == 1 && m.n <= 4) for (long z = 0; z < (1L << m.n); z++) {
    Mat q = m; for (int i = 0; i < m.n; i++) { double& d = q.v[q.di[i]]; if (z >> i & 1) d = 0; else if (i % 2) d = -d; }
    mc::Cfg c1; c1.threads = 3; c1.deviations = 1; c1.check_leaks = true;
    R.explore(c1, [&]() { In in(q); { M W(q.n, in.rp, in.ci, in.v, in.di); diag_queries(W, q); mc::trans_add(6); } in.unchanged(); in.free_all(); });
  }
  if (bs == 1 && m.n > 4) for (int z = 0; z < 6; z++) {
    Mat q = m; for (int i = 0; i < m.n; i++) { double& d = q.v[q.di[i]]; d = d > 0 ? 1.0 + i % 5 / 8.0 : -1.0; if (z == 1) d = i % 2 ? -d : d; if (z == 2 && i == m.n - 1) d = 0; if (z == 3 && i % 3 == 2) d = 0; if (z == 4) d *= i == m.n / 2 ? -1e5 : i == m.n - 1 ? 1e-4 : 1; if (z == 5) d *= i == 0 ? 1e6 : i == m.n - 1 ? -1e7 : i == m.n - 2 ? -1e-5 : -1; }
    mc::Cfg c1; c1.threads = 3; c1.deviations = 1; c1.check_leaks = true;
    R.explore(c1, [&]() { In in(q); { M W(q.n, in.rp, in.ci, in.v, in.di); diag_queries(W, q); mc::trans_add(6); } in.unchanged(); in.free_all(); });
  }
  // equality: against every single-value change, against changed patterns
  mc::Cfg c2; c2.threads = T; c2.check_leaks = true;
  R.explore(c2, [&]() {
    In in(m);
    {
      M W(m.n, in.rp, in.ci, in.v, in.di); M C(W);
      same(W.isEqual(C, 0.0), m, m, 0, "a matrix and its copy"); same(C.isEqual(C, 1e-3), m, m, 1e-3, "a matrix and itself");
      size_t step = std::max<size_t>(1, m.v.size() / 60) | 1;
      Mat o = m; In io(o, false); M O(o.n, io.rp, io.ci, io.v, io.di);
      for (size_t k = 0; k < m.v.size(); k += step) for (double d : {0.5, -0.5, 0.0078125}) {
        o.v[k] = io.v[k] = m.v[k] + d; same(W.isEqual(O, 0.25), m, o, 0.25, "changed value"); same(O.isEqual(W, 0.001), o, m, 0.001, "changed value"); mc::trans_add(2);
        o.v[k] = io.v[k] = m.v[k];
      }
      for (int i : {0, m.n / 2, m.n - 1}) if (m.nnz() > 1) {      // the same matrix with another diagonal position
        io.di[i] = o.di[i] = (m.di[i] + 1) % m.nnz(); same(W.isEqual(O, 0.25), m, o, 0.25, "other diagonal position"); same(O.isEqual(W, 0.25), o, m, 0.25, "other diagonal position"); io.di[i] = o.di[i] = m.di[i];
      }
      for (size_t k : {(size_t)0, (size_t)m.nnz() / 2, (size_t)m.nnz() - 1}) {      // another column
        io.ci[k] = o.ci[k] = m.ci[k] + 1; same(W.isEqual(O, 0.25), m, o, 0.25, "other column"); same(O.isEqual(W, 0.25), o, m, 0.25, "other column"); io.ci[k] = o.ci[k] = m.ci[k];
      }
      if (m.n > 1) for (int i : {1, m.n / 2, m.n - 1}) if (i > 0) {
        io.rp[i]++; o.rp[i]++; same(W.isEqual(O, 0.25), m, o, 0.25, "other row pointer"); same(O.isEqual(W, 0.25), o, m, 0.25, "other row pointer"); io.rp[i]--; o.rp[i]--;
      }
      free(io.rp); free(io.ci); free(io.v); free(io.di);
    }
    in.unchanged(); in.free_all();
  });
}
// all ordered pairs of patterns
template <int bs> static void pairs(mc::Runner& R, int n, long m1, int step) {
  for (long m2 = 0; m2 < nmasks(n); m2 += step) {
    Mat a = make(pattern(n, m1), bs, true, 1), b = make(pattern(n, m2), bs, true, 1);
    mc::Cfg c; c.threads = 3; c.deviations = 1; c.check_leaks = true;
    R.explore(c, [&]() { In ia(a), ib(b); { BSRMatrix<double,int,bs> A(a.n, ia.rp, ia.ci, ia.v, ia.di), B(b.n, ib.rp, ib.ci, ib.v, ib.di); same(A.isEqual(B, 1e-6), a, b, 1e-6, "two patterns"); mc::trans_add(1); } mc::clear_readonly(); ia.free_all(); ib.free_all(); });
  }
  for (int n2 = 1; n2 <= 4; n2++) {
    Mat a = make(pattern(n, m1), bs, true, 1), b = make(pattern(n2, m1 & (nmasks(n2) - 1)), bs, true, 1);
    mc::Cfg c; c.threads = 3; c.deviations = 1; c.check_leaks = true;
    R.explore(c, [&]() { In ia(a), ib(b); { BSRMatrix<double,int,bs> A(a.n, ia.rp, ia.ci, ia.v, ia.di), B(b.n, ib.rp, ib.ci, ib.v, ib.di); same(A.isEqual(B, 1e-6), a, b, 1e-6, "two sizes"); mc::trans_add(1); } mc::clear_readonly(); ia.free_all(); ib.free_all(); });
  }
}
// raw helpers for the solver block sizes
template <int bs> static void raws(mc::Runner& R, const std::vector<std::vector<int>>& pat, int seed, int T) {
  for (int rm = 0; rm < (bs == 1 ? 1 : 2); rm++) {
    const Mat m = make(pat, bs, rm == 0, seed); Vec s = scaling(m);
    mc::Cfg c; c.threads = T; c.preempt = 2; c.deviations = g_dev; c.check_leaks = true;
    R.explore(c, [&]() {
      In in(m); auto raw = in.raw();
      double* sc = fresh<double>(m.N());
      getScalingVector<double,int,bs>(&raw, sc); expect(sc, s, "getScalingVector"); free(sc);
      RawBSRMatrix<double,int> cp = copyRawBSRMatrix<double,int,bs>(raw);
      if (cp.nbrows != m.n || cp.nnzb != m.nnz() || cp.nbstored != m.nnz()) mc::fail("copyRawBSRMatrix: wrong dimensions");
      if (cp.browptr == in.rp || cp.bcolind == in.ci || cp.vals == in.v || cp.diagind == in.di) mc::fail("copyRawBSRMatrix: arrays shared with the original");
      for (int i = 0; i <= m.n; i++) if (cp.browptr[i] != m.rp[i]) mc::fail("copyRawBSRMatrix: row pointers differ");
      for (int i = 0; i < m.n; i++) if (cp.diagind[i] != m.di[i] || cp.browendptr[i] != m.rp[i + 1]) mc::fail("copyRawBSRMatrix: diagonal positions or row ends differ");
      for (int p = 0; p < m.nnz(); p++) if (cp.bcolind[p] != m.ci[p]) mc::fail("copyRawBSRMatrix: columns differ");
      for (size_t k = 0; k < m.v.size(); k++) if (cp.vals[k] != m.v[k]) mc::fail("copyRawBSRMatrix: values differ");
      alignedDestroyRawBSRMatrix(cp);
      for (int up = 0; up < 2; up++) {
        CRawBSRMatrix<double,int> t = up ? getUpperTriangularView(raw) : getLowerTriangularView(raw);
        int nz = 0;
        if (t.nbrows != m.n || t.nbstored != m.nnz() || t.bcolind != in.ci || t.vals != in.v || t.diagind != in.di) mc::fail("triangular view: does not refer to the matrix' arrays");
        for (int i = 0; i < m.n; i++) {
          int b = up ? m.di[i] : m.rp[i], e = up ? m.rp[i + 1] : m.di[i] + 1; nz += e - b;
          if (t.browptr[i] != b || t.browendptr[i] != e) mc::fail(mc::fmt("%s triangular view: row %d spans %d..%d, should be %d..%d", up ? "upper" : "lower", i, t.browptr[i], t.browendptr[i], b, e));
        }
        if (t.nnzb != nz) mc::fail(mc::fmt("%s triangular view: %d non-zero blocks, should be %d", up ? "upper" : "lower", t.nnzb, nz));
        alignedDestroyRawBSRMatrixTriangularView(reinterpret_cast<RawBSRMatrix<double,int>&>(t));
        {
          auto ts = up ? getUpperTriangularView<double,int>(in.storage()) : getLowerTriangularView<double,int>(in.storage());
          if (ts.nbrows != m.n || ts.nbstored != m.nnz() || ts.nnzb != nz) mc::fail("triangular view of storage: wrong dimensions");
          for (int i = 0; i < m.n; i++) { int b = up ? m.di[i] : m.rp[i], e = up ? m.rp[i + 1] : m.di[i] + 1; if (ts.browptr[i] != b || ts.browendptr[i] != e) mc::fail("triangular view of storage: wrong row range"); }
          auto v = createRawView<double,int>(std::move(ts));
          if (v.nbrows != m.n || v.nnzb != nz || v.nbstored != m.nnz() || v.vals != in.v || v.bcolind != in.ci || v.diagind != in.di || (m.n && v.browendptr[m.n - 1] != (up ? m.rp[m.n] : m.di[m.n - 1] + 1))) mc::fail("createRawView does not describe the storage object");
        }
        mc::trans_add(4);
      }
      in.unchanged(); in.free_all();
    });
  }
}
// copies of matrices of any structure: rows without entries, without a diagonal, no entries at all
template <int bs> static void rawcopy(mc::Runner& R, const std::vector<std::vector<int>>& pat, int seed, int T) {
  for (int rm = 0; rm < (bs == 1 ? 1 : 2); rm++) {
    const Mat m = make(pat, bs, rm == 0, seed);
    mc::Cfg c; c.threads = T; c.preempt = 0; c.deviations = g_dev; c.check_leaks = true;
    R.explore(c, [&]() {
      In in(m); auto raw = in.raw(); RawBSRMatrix<double,int> cp = copyRawBSRMatrix<double,int,bs>(raw);
      if (cp.nbrows != m.n || cp.nnzb != m.nnz() || cp.nbstored != m.nnz()) mc::fail("copyRawBSRMatrix: wrong dimensions");
      for (int i = 0; i <= m.n; i++) if (cp.browptr[i] != m.rp[i]) mc::fail("copyRawBSRMatrix: row pointers differ");
      for (int i = 0; i < m.n; i++) if (cp.diagind[i] != m.di[i] || cp.browendptr[i] != m.rp[i + 1]) mc::fail("copyRawBSRMatrix: diagonal positions or row ends differ");
      for (int p = 0; p < m.nnz(); p++) if (cp.bcolind[p] != m.ci[p]) mc::fail("copyRawBSRMatrix: columns differ");
      for (size_t k = 0; k < m.v.size(); k++) if (cp.vals[k] != m.v[k]) mc::fail("copyRawBSRMatrix: values differ");
      for (int i = 0; i < m.n; i++) cp.diagind[i] = 0; for (int p = 0; p < m.nnz(); p++) cp.bcolind[p] = -7; for (size_t k = 0; k < m.v.size(); k++) cp.vals[k] = -9;
      alignedDestroyRawBSRMatrix(cp); mc::trans_add(1); mc::observe(m.nnz());
      in.unchanged(); in.free_all();
    });
  }
}
template <int bs> static void group(mc::Runner& R, const char* nm) {
  for (int n = 1; n <= 3; n++) for (long m0 = 0; m0 < (1L << (n * n)); m0 += 16) {
    if (bs > 1 && n == 3 && !R.thorough() && m0 % 96) continue;
    if (!R.begin(mc::fmt("%s/ops/n=%d/masks=%ld+", nm, n, m0))) continue;
    for (long k = m0; k < (1L << (n * n)) && k < m0 + 16; k++) { if (k == 0) continue; for (int T = 1; T <= 3; T += bs == 1 || R.thorough() ? 1 : 2) ops<bs>(R, any_pattern(n, k), (int)k, T); }
  }
  for (int n = 1; n <= 4; n++) {
    long N = nmasks(n), step = n < 4 ? 1 : R.thorough() && bs == 1 ? 1 : 37;
    for (long m0 = 0; m0 < N; m0 += 16 * step) {
      if (!R.begin(mc::fmt("%s/diag/n=%d/masks=%ld+", nm, n, m0))) continue;
      for (long k = m0; k < N && k < m0 + 16 * step; k += step) { for (int T = 1; T <= 3; T += 2) ops<bs>(R, pattern(n, k), (int)k, T); if (n <= 3) pairs<bs>(R, n, k, 1); else if (k % (37 * 5) == 0) pairs<bs>(R, n, k, 13); }
    }
  }
  for (auto& F : families(bs)) { if (F.vc || !R.begin(mc::fmt("%s/wide/%s", nm, F.name.c_str()))) continue; g_dev = 1; for (int T : {1, 5, 17}) if (bs == 1 || !F.big || T == 5) ops<bs>(R, F.pat, 3, T); g_dev = -1; }
  for (auto& F : holes(bs)) if (R.begin(mc::fmt("%s/holes/%s", nm, F.name.c_str()))) { g_dev = 1; for (int T : {1, 5}) ops<bs>(R, F.pat, 3, T); g_dev = -1; }
  for (auto& F : sizes(bs)) if (R.begin(mc::fmt("%s/%s", nm, F.name.c_str()))) { g_dev = 1; ops<bs>(R, F.pat, 3, 4); g_dev = -1; }
  if (R.begin(mc::fmt("%s/band", nm))) for (int n : {17, 40, 67}) ops<bs>(R, band_pattern(n, {-5, -1, 3}), n, 3);
}
template <int bs> static void rawgroup(mc::Runner& R, const char* nm) {
  for (auto& F : families(bs)) { if (F.vc || !R.begin(mc::fmt("%s/raw/wide/%s", nm, F.name.c_str()))) continue; g_dev = 1; for (int T : {1, 5, 17}) if (bs == 1 || !F.big || T == 5) raws<bs>(R, F.pat, 3, T); g_dev = -1; }
  for (int n = 1; n <= 3; n++) if (R.begin(mc::fmt("%s/rawcopy/n=%d", nm, n))) for (long k = 0; k < (1L << (n * n)); k++) for (int T : {1, 3}) rawcopy<bs>(R, any_pattern(n, k), (int)k, T);
  for (auto& F : holes(bs)) if (R.begin(mc::fmt("%s/rawcopy/%s", nm, F.name.c_str()))) { g_dev = 1; for (int T : {1, 5}) rawcopy<bs>(R, F.pat, 3, T); g_dev = -1; }
  for (int n = 1; n <= 4; n++) {
    long N = nmasks(n), step = n < 4 ? 1 : bs == 1 ? 3 : 29;
    for (long m0 = 0; m0 < N; m0 += 32 * step) {
      if (!R.begin(mc::fmt("%s/raw/n=%d/masks=%ld+", nm, n, m0))) continue;
      for (long k = m0; k < N && k < m0 + 32 * step; k += step) {
        // the upper view requires a last row ending with its diagonal entry (always so for sorted square matrices)
        for (int T = 1; T <= 3; T++) raws<bs>(R, pattern(n, k), (int)k, T);
      }
    }
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C12");
  group<1>(R, "csr"); group<3>(R, "bsr3"); group<7>(R, "bsr7");
  rawgroup<1>(R, "csr"); rawgroup<4>(R, "bsr4"); rawgroup<5>(R, "bsr5");
  return R.finish();
}
