// Matrix-vector products
#include "ref.hpp"
#include "wide.hpp"
#include "blockmatrices.hpp"
using namespace ref;
using namespace blasted;

static const double AB[][2] = {{1, 0}, {1, 1}, {-0.5, 2}, {0, -1.5}, {2, -1}, {0, 0}, {0, 1}, {-1, 1}, {1e-9, 1e-9}, {3e8, 0}};
static int g_vc = 0;
struct Want { Vec x, y, ax; std::vector<Vec> z; };
static Want want_of(const Mat& m, int part) {   // part 0 full, -1 lower incl. diagonal, 1 upper incl. diagonal
  Want w; w.x = vec(m.N(), 1); w.y = vec(m.N(), 2);
  Dense D = m.dense();
  for (int i = 0; i < m.N(); i++) for (int j = 0; j < m.N(); j++) { int bi = i / m.bs, bj = j / m.bs; if ((part < 0 && bj > bi) || (part > 0 && bj < bi)) D(i,j) = 0; }
  w.ax = mul(D, w.x);
  for (auto& ab : AB) { Vec z(m.N()); for (int i = 0; i < m.N(); i++) z[i] = ab[0] * w.ax[i] + ab[1] * w.y[i]; w.z.push_back(z); }
  return w;
}
template <class Op> static void products(const Op& A, const Mat& m, const Want& w, const char* what) {
  const int N = m.N();
  if (A.dim() != N) mc::fail(mc::fmt("%s: dimension %d, should be %d", what, (int)A.dim(), N));
  const double *x = ro(w.x), *y = ro(w.y);
  double* r = fresh<double>(N);
  A.apply(x, r);
  expect(r, w.ax, (std::string(what) + " apply").c_str());
  for (size_t k = 0; k < w.z.size(); k++) {
    double* z = fresh<double>(N);
    A.gemv3(AB[k][0], x, AB[k][1], y, z);
    expect(z, w.z[k], mc::fmt("%s gemv3 a=%g b=%g", what, AB[k][0], AB[k][1]).c_str());
    for (int i = 0; i < N; i++) z[i] = w.y[i];
    A.gemv3(AB[k][0], x, AB[k][1], z, z);
    expect(z, w.z[k], mc::fmt("%s gemv3 in place a=%g b=%g", what, AB[k][0], AB[k][1]).c_str());
    free(z);
  }
  mc::trans_add(1 + 2 * (long)w.z.size());
  mc::observe(mc::hash(r, N * 8));
  mc::clear_readonly(); free((void*)x); free((void*)y); free(r);
}
template <int bs, StorageOptions st> struct Ops {
  typedef BSRMatrixView<double, int, bs, st> View; typedef BSRMatrix<double, int, bs> Own;
};
template <StorageOptions st> struct Ops<1, st> { typedef CSRMatrixView<double, int> View; typedef BSRMatrix<double, int, 1> Own; };

template <int bs, StorageOptions st> static void one(mc::Runner& R, const std::vector<std::vector<int>>& pat, int seed, int T, bool fulldiag) {
  Mat m = make(Fam{"", pat, g_vc, false}, bs, st == RowMajor, seed);
  if (m.nnz() == 0) return;      // a matrix without any stored entry is outside the property
  Want w = want_of(m, 0);
  Want wl, wu; if (fulldiag) { wl = want_of(m, -1); wu = want_of(m, 1); }
  mc::Cfg c; c.threads = T; c.preempt = 2; c.deviations = T > 3 ? 1 : -1; c.check_leaks = true;
  R.explore(c, [&]() {
    In in(m);
    { typename Ops<bs, st>::View A(m.n, in.rp, in.ci, in.v, in.di); products(A, m, w, "view"); }
    for (size_t k = 0; k < 1; k++) { typename Ops<bs, st>::View A(in.storage()); products(A, m, w, "view of storage"); }
    if (fulldiag && m.n > 0) {
      { typename Ops<bs, st>::View A(getLowerTriangularView<double, int>(in.storage())); products(A, m, wl, "lower triangular view"); }
      { typename Ops<bs, st>::View A(getUpperTriangularView<double, int>(in.storage())); products(A, m, wu, "upper triangular view"); }
    }
    in.unchanged(); in.free_all();
  });
}
template <int bs> static void own(mc::Runner& R, const std::vector<std::vector<int>>& pat, int seed, int T) {
  Mat m = make(pat, bs, true, seed); Want w = want_of(m, 0);
  mc::Cfg c; c.threads = T; c.preempt = 2; c.deviations = T > 3 ? 1 : -1; c.check_leaks = true;
  R.explore(c, [&]() {
    In in(m);
    {
      BSRMatrix<double, int, bs> A(m.n, in.rp, in.ci, in.v, in.di); products(A, m, w, "wrapping matrix");
      BSRMatrix<double, int, bs> B(A); products(B, m, w, "copied matrix");
      BSRMatrix<double, int, bs> S; S.setStructure(m.n, in.ci, in.rp); S.setAllZero();
      for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) S.submitBlock(i * bs, m.ci[p] * bs, &m.v[(size_t)p * bs * bs], 1, 1);
      products(S, m, w, "assembled matrix");
    }
    in.unchanged(); in.free_all();
  });
}
template <int bs> static typename std::enable_if<bs == 4 || bs == 5>::type ownsel(mc::Runner&, const std::vector<std::vector<int>>&, int, int) {}
template <int bs> static typename std::enable_if<bs != 4 && bs != 5>::type ownsel(mc::Runner& R, const std::vector<std::vector<int>>& p, int s, int T) { own<bs>(R, p, s, T); }
template <int bs, StorageOptions st> static void group(mc::Runner& R, const char* nm, bool withown) {
  auto go = [&](const char* kind, int n, long mask, const std::vector<std::vector<int>>& pat, bool fulldiag, bool empty) {
    for (int T = 1; T <= 3; T++) {
      if (!R.thorough() && T == 2 && bs > 1) continue;
      one<bs, st>(R, pat, (int)mask, T, fulldiag);
      if (withown && fulldiag) ownsel<bs>(R, pat, (int)mask + 1, T);
    }
  };
  // arbitrary patterns, diagonal not required, empty rows included
  for (int n = 0; n <= 3; n++) {
    long N = 1L << (n * n), step = n == 3 && bs > 1 && !R.thorough() ? 5 : 1;
    for (long m0 = 0; m0 < N; m0 += 32 * step) {
      if (!R.begin(mc::fmt("%s/any/n=%d/masks=%ld+", nm, n, m0))) continue;
      for (long k = m0; k < N && k < m0 + 32 * step; k += step) go("any", n, k, any_pattern(n, k), false, true);
    }
  }
  for (int n = 1; n <= 4; n++) {
    long N = nmasks(n), step = n == 4 ? (bs == 1 ? 1 : R.thorough() ? 3 : 19) : 1;
    for (long m0 = 0; m0 < N; m0 += 16 * step) {
      if (!R.begin(mc::fmt("%s/diag/n=%d/masks=%ld+", nm, n, m0))) continue;
      for (long k = m0; k < N && k < m0 + 16 * step; k += step) go("diag", n, k, pattern(n, k), true, false);
    }
  }
  for (auto& F : families(bs)) {
    if (!R.begin(mc::fmt("%s/wide/%s", nm, F.name.c_str()))) continue;
    g_vc = F.vc; for (int T : {1, 2, 5, 17}) { if (bs > 1 && F.big && T != 5) continue; one<bs, st>(R, F.pat, 5, T, true); if (withown && !F.vc) ownsel<bs>(R, F.pat, 6, T); } g_vc = 0;
  }
  for (auto& F : holes(bs)) {
    if (!R.begin(mc::fmt("%s/holes/%s", nm, F.name.c_str()))) continue;
    g_vc = F.vc; for (int T : {1, 2, 5, 17}) one<bs, st>(R, F.pat, 5, T, false); g_vc = 0;
  }
  for (auto& F : sizes(bs)) {
    if (!R.begin(mc::fmt("%s/%s", nm, F.name.c_str()))) continue;
    for (int T : {1, 4}) { one<bs, st>(R, F.pat, 5, T, true); if (withown && T == 4) ownsel<bs>(R, F.pat, 6, T); }
  }
  for (int n : {23, 64, 130}) {
    if (!R.begin(mc::fmt("%s/band/n=%d", nm, n))) continue;
    one<bs, st>(R, band_pattern(n, {-7, -1, 2, 5}), n, 3, true);
    if (withown) ownsel<bs>(R, band_pattern(n, {-7, -1, 2, 5}), n, 3);
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C10");
  group<1, RowMajor>(R, "csr", true);
  group<3, RowMajor>(R, "bsr3row", true); group<3, ColMajor>(R, "bsr3col", false);
  group<4, RowMajor>(R, "bsr4row", false); group<4, ColMajor>(R, "bsr4col", false);
  group<5, ColMajor>(R, "bsr5col", false);
  group<7, RowMajor>(R, "bsr7row", true); group<7, ColMajor>(R, "bsr7col", false);
  return R.finish();
}
