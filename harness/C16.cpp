// Row-to-column conversion, column adjacency, column-wise products
#include "ref.hpp"
#include "wide.hpp"
#include "scmatrixdefs.hpp"
#include "adjacency.hpp"
namespace blasted {
template <typename scalar, typename index, int bs, StorageOptions stor>
void bcsc_gemv3(const CRawBSCMatrix<scalar,index> *const mat, const scalar a, const scalar *const __restrict xx, const scalar b, const scalar *const yy, scalar *const zz);
}
using namespace ref;
static int g_dev = -1;
using namespace blasted;
#include "wide.hpp"
using ref::Pat;
static Pat order(Pat c, int o) {      // the order of entries inside a row must not matter
  for (size_t i = 0; i < c.size(); i++) { if (o == 1) std::reverse(c[i].begin(), c[i].end()); if (o == 2 && c[i].size() > 1) std::rotate(c[i].begin(), c[i].begin() + 1 + (long)(i % (c[i].size() - 1)), c[i].end()); }
  return c;
}
// expected columns: row index and position in the row storage, ascending rows
struct Col { std::vector<int> ptr, row, pos, diag; };
static Col columns(const Mat& m) {
  Col k; k.ptr.push_back(0);
  for (int j = 0; j < m.n; j++) { k.diag.push_back(-1); for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) if (m.ci[p] == j) { if (i == j) k.diag[j] = (int)k.row.size(); k.row.push_back(i); k.pos.push_back(p); } k.ptr.push_back((int)k.row.size()); }
  return k;
}
static void same(const Mat& m, const Col& k, const CRawBSCMatrix<double,int>& C, int base, const char* what) {
  int b2 = m.bs * m.bs;
  if (C.nbcols != m.n) mc::fail(mc::fmt("%s: %d columns, should be %d", what, C.nbcols, m.n));
  for (int j = 0; j <= m.n; j++) if (C.bcolptr[j] != k.ptr[j] + base) mc::fail(mc::fmt("%s: column pointer %d is %d, should be %d", what, j, C.bcolptr[j], k.ptr[j] + base));
  for (size_t q = 0; q < k.row.size(); q++) {
    if (C.browind[q] != k.row[q] + base) mc::fail(mc::fmt("%s: row index %zu is %d, should be %d", what, q, C.browind[q], k.row[q] + base));
    for (int z = 0; z < b2; z++) if (memcmp(&C.vals[q * b2 + z], &m.v[(size_t)k.pos[q] * b2 + z], 8)) mc::fail(mc::fmt("%s: value %d of block %zu is %.15g, should be %.15g", what, z, q, C.vals[q * b2 + z], m.v[(size_t)k.pos[q] * b2 + z]));
  }
  for (int j = 0; j < m.n; j++) if (k.diag[j] >= 0 ? C.diagind[j] != k.diag[j] + base : C.diagind[j] != base - 1) mc::fail(mc::fmt("%s: diagonal position of column %d is %d, should be %d", what, j, C.diagind[j], k.diag[j] + base));
}
template <int bs> static void convert(const Mat& m, const Col& k) {
  In in(m); auto raw = in.raw();
  long live = mc::live_blocks();
  CRawBSCMatrix<double,int> C; convert_BSR_to_BSC<double,int,bs>(&raw, &C);
  same(m, k, C, 0, "conversion");
  alignedDestroyCRawBSCMatrix<double,int>(C);
  if (bs == 1) { CRawBSCMatrix<double,int> D = convert_BSR_to_BSC_1based<double,int,1>(&raw); same(m, k, D, 1, "1-based conversion"); alignedDestroyCRawBSCMatrix<double,int>(D); }
  if (mc::live_blocks() != live) mc::fail("conversion leaks memory");
  in.unchanged(); mc::trans_add(1); in.free_all();
}
static void adjacency(const Mat& m, const Col& k) {
  In in(m);
  { SRMatrixStorage<double,int> st(in.rp, in.ci, in.v, in.di, in.rp + 1, m.n, m.nnz(), m.nnz(), m.bs);
    const ColumnAdjacency<double,int> ca(st);
    if (ca.col_pointers() != k.ptr) mc::fail("column adjacency: wrong column pointers");
    if (ca.col_nonzero_rows() != k.row) mc::fail("column adjacency: wrong rows");
    if (ca.col_nonzero_locations() != k.pos) mc::fail("column adjacency: wrong locations"); }
  in.unchanged(); mc::trans_add(1); mc::observe(mc::hash(k.pos.data(), k.pos.size() * 4)); in.free_all();
}
static const double AB[][2] = {{1, 0}, {-0.5, 2}, {0, -1.5}, {1, 1}, {-1, 1}, {2, -1}, {1e-9, 3e5}};
template <int bs, StorageOptions st> static void product(mc::Runner& R, const Pat& p, int seed, int T, int P, int which) {
  Mat m = make(p, bs, st == RowMajor, seed); Col k = columns(m);
  int b2 = bs * bs; Vec cv; for (int q : k.pos) for (int z = 0; z < b2; z++) cv.push_back(m.v[(size_t)q * b2 + z]);
  Vec x = vec(m.N(), 1), y = vec(m.N(), 2), ax = mul(m.dense(), x);
  mc::Cfg c; c.threads = T; c.preempt = P; c.deviations = g_dev; c.check_leaks = true;
  R.explore(c, [&]() {
    CRawBSCMatrix<double,int> C; int *cp = dup(k.ptr), *ri = dup(k.row), *di = dup(k.diag); double* v = dup(cv);
    C.bcolptr = cp; C.browind = ri; C.vals = v; C.diagind = di; C.nbcols = m.n;
    mc::mark_readonly(cp, k.ptr.size() * 4); mc::mark_readonly(ri, k.row.size() * 4); mc::mark_readonly(v, cv.size() * 8);
    const double *xx = ro(x), *yy = ro(y); double* z = fresh<double>(m.N());
    for (int q = which < 0 ? 0 : which / 2; q < (which < 0 ? 7 : which / 2 + 1); q++) for (int al = which < 0 ? 0 : which % 2; al < (which < 0 ? 2 : which % 2 + 1); al++) {
      if (al) for (int i = 0; i < m.N(); i++) z[i] = y[i];
      bcsc_gemv3<double,int,bs,st>(&C, AB[q][0], xx, AB[q][1], al ? z : yy, z);
      Vec w(m.N()); for (int i = 0; i < m.N(); i++) w[i] = AB[q][0] * ax[i] + AB[q][1] * y[i];
      expect(z, w, mc::fmt("column-wise product a=%g b=%g%s", AB[q][0], AB[q][1], al ? " in place" : "").c_str());
    }
    mc::observe(mc::hash(z, m.N() * 8)); mc::trans_add(1);
    mc::clear_readonly(); free(cp); free(ri); free(di); free(v); free((void*)xx); free((void*)yy); free(z);
  });
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C16");
  const bool th = R.thorough();
  mc::Cfg one; one.threads = 3; one.deviations = 1; one.check_leaks = true;
  for (int n = 1; n <= 4; n++) {
    long N = 1L << (n * n);
    for (long b = 0; b < N; b += 256) {
      if (!R.begin(mc::fmt("convert/n=%d/masks=%ld+", n, b))) continue;
      for (long k = b; k < N && k < b + 256; k++) for (int o = 0; o < (n < 4 || th ? 3 : 1); o++) {
        Pat p = order(any_pattern(n, k), n < 4 || th ? o : (int)(k % 3));
        auto go = [&](const Mat& m, std::function<void(const Mat&, const Col&)> f) { Col c = columns(m); R.explore(one, [&]() { f(m, c); }); };
        go(make(p, 1, true, 1), [](const Mat& m, const Col& c) { convert<1>(m, c); adjacency(m, c); });
        if (n == 4 && !th) { if (k % 16 == 3) go(make(p, 4, k % 32 == 3, 1), [](const Mat& m, const Col& c) { convert<4>(m, c); adjacency(m, c); }); continue; }
        go(make(p, 3, true, 1), [](const Mat& m, const Col& c) { convert<3>(m, c); adjacency(m, c); });
        go(make(p, 4, false, 2), [](const Mat& m, const Col& c) { convert<4>(m, c); });
        go(make(p, 5, false, 2), [](const Mat& m, const Col& c) { convert<5>(m, c); });
        go(make(p, 7, true, 3), [](const Mat& m, const Col& c) { convert<7>(m, c); });
      }
    }
  }
  for (int n : {30, 70, 140}) for (int o = 0; o < 4; o++) {     // longer columns than the initial reservation, wide rows
    if (!R.begin(mc::fmt("convert/large/n=%d/kind=%d", n, o))) continue;
    Pat p(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (o == 0 ? (i * 7 + j * 5) % 9 < 2 : o == 1 ? (j == 3 || i == j) : o == 2 ? (i == 5 || j == n - 1 - i) : (i + j) % 2 == 0) p[i].push_back(j);
    for (int q = 0; q < 3; q++) { Pat s = order(p, q); { Mat m = make(s, 1, true, 1); Col c = columns(m); R.explore(one, [&]() { convert<1>(m, c); adjacency(m, c); }); } { Mat m = make(s, 4, false, 1); Col c = columns(m); R.explore(one, [&]() { convert<4>(m, c); adjacency(m, c); }); } }
  }
  // products: all patterns up to 3 columns, all interleavings within the bound
  for (int T = 1; T <= (th ? 4 : 3); T++) for (int n = 1; n <= 3; n++) {
    long N = 1L << (n * n);
    for (long b = 0; b < N; b += 8) {
      if (!R.begin(mc::fmt("product/T=%d/n=%d/masks=%ld+", T, n, b))) continue;
      for (long k = b; k < N && k < b + 8; k++) {
        if (!th && n == 3 && T > 1 && k % 3 != T % 3) continue;
        Pat p = any_pattern(n, k); int P = T == 1 ? 0 : T == 2 && th ? 2 : 1;
        if (T == 1) { product<3, ColMajor>(R, p, 1, 1, 0, -1); product<4, ColMajor>(R, p, 1, 1, 0, -1); product<7, RowMajor>(R, p, 1, 1, 0, -1); continue; }
        product<3, ColMajor>(R, p, 1, T, P, (int)(k % 6)); product<4, ColMajor>(R, p, 1, T, 1, (int)((k + 1) % 6)); if (th || k % 4 == 0) product<7, RowMajor>(R, p, 1, T, 1, (int)((k / 4 + 2) % 6));
      }
    }
  }
  for (auto& F : families(4)) for (int w = 0; w < 8; w++) {
    if (F.vc || !R.begin(mc::fmt("product/wide/%s/which=%d", F.name.c_str(), w))) continue;
    g_dev = 0; for (int T : {1, 2, 5, 17}) { if (F.big && T > 2) continue; product<3, ColMajor>(R, F.pat, 2, T, 0, w); product<4, ColMajor>(R, F.pat, 2, T, 0, w); product<7, RowMajor>(R, F.pat, 2, T, 0, w); } g_dev = -1;
  }
  for (int T : {2, 3}) for (int w = 0; w < 6; w++) {
    if (!R.begin(mc::fmt("product/band/T=%d/which=%d", T, w))) continue;
    Pat p = band_pattern(5, {-2, -1, 1, 3}); product<3, ColMajor>(R, p, 2, T, 1, w); product<4, ColMajor>(R, p, 2, T, 1, w); product<7, RowMajor>(R, p, 2, T, 1, w);
  }
  for (int bs : {1, 3, 4, 5, 7}) {
    auto fs = holes(bs); for (auto& F : sizes(bs)) fs.push_back(F); for (auto& F : families(bs)) if (F.vc || F.big) fs.push_back(F);
    for (auto& F : fs) {
      if (!R.begin(mc::fmt("sizes/bs=%d/%s", bs, F.name.c_str()))) continue;
      Mat m = make(F, bs, bs == 1 || bs == 7, 1); Col c = columns(m);
      R.explore(one, [&]() { if (bs == 1) convert<1>(m, c); else if (bs == 3) convert<3>(m, c); else if (bs == 4) convert<4>(m, c); else if (bs == 5) convert<5>(m, c); else convert<7>(m, c); adjacency(m, c); });
      if (F.vc == VC_TINY || F.vc == VC_HUGE) continue;
      g_dev = 0; for (int T : {1, 4}) { if (F.big && T == 4) continue; if (bs == 3) product<3, ColMajor>(R, F.pat, 2, T, 0, -1); else if (bs == 4) product<4, ColMajor>(R, F.pat, 2, T, 0, -1); else if (bs == 7) product<7, RowMajor>(R, F.pat, 2, T, 0, -1); } g_dev = -1;
    }
  }
  return R.finish();
}
