/* Reference model: dense/sequential mathematics computed outside the library, input generation and
 * exact-size instrumented copies of the inputs. Nothing here includes library algorithms. */
#pragma once
#include "mc.hpp"
#include <vector>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <string>
#include <functional>
#include "srmatrixdefs.hpp"

namespace ref {
typedef std::vector<double> Vec;

struct Dense {
  int n; Vec a;
  explicit Dense(int n_ = 0) : n(n_), a((size_t)n_ * n_, 0.0) {}
  double& operator()(int i, int j) { return a[(size_t)i * n + j]; }
  double operator()(int i, int j) const { return a[(size_t)i * n + j]; }
};
inline Dense mul(const Dense& A, const Dense& B) { Dense C(A.n); for (int i = 0; i < A.n; i++) for (int k = 0; k < A.n; k++) if (A(i,k) != 0) for (int j = 0; j < A.n; j++) C(i,j) += A(i,k) * B(k,j); return C; }
inline Vec mul(const Dense& A, const Vec& x) { Vec y(A.n, 0.0); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.n; j++) y[i] += A(i,j) * x[j]; return y; }
// Gaussian elimination with partial pivoting
inline Vec solve(Dense A, Vec b) {
  int n = A.n;
  for (int k = 0; k < n; k++) {
    int p = k; for (int i = k + 1; i < n; i++) if (std::fabs(A(i,k)) > std::fabs(A(p,k))) p = i;
    if (p != k) { for (int j = 0; j < n; j++) std::swap(A(k,j), A(p,j)); std::swap(b[k], b[p]); }
    for (int i = k + 1; i < n; i++) { double f = A(i,k) / A(k,k); if (f != 0) { for (int j = k; j < n; j++) A(i,j) -= f * A(k,j); b[i] -= f * b[k]; } }
  }
  for (int i = n - 1; i >= 0; i--) { for (int j = i + 1; j < n; j++) b[i] -= A(i,j) * b[j]; b[i] /= A(i,i); }
  return b;
}
inline Dense inverse(const Dense& A) { Dense I(A.n); for (int c = 0; c < A.n; c++) { Vec e(A.n, 0.0); e[c] = 1; Vec x = solve(A, e); for (int i = 0; i < A.n; i++) I(i,c) = x[i]; } return I; }

/* ---- sparse block matrix as given to the library ---- */
struct Mat {
  int n = 0, bs = 1; bool rowmajor = true;
  std::vector<int> rp, ci, di; Vec v;
  int N() const { return n * bs; }
  int nnz() const { return (int)ci.size(); }
  double& at(int p, int a, int b) { return v[(size_t)p * bs * bs + (rowmajor ? a * bs + b : b * bs + a)]; }
  double at(int p, int a, int b) const { return v[(size_t)p * bs * bs + (rowmajor ? a * bs + b : b * bs + a)]; }
  int find(int i, int j) const { for (int p = rp[i]; p < rp[i + 1]; p++) if (ci[p] == j) return p; return -1; }
  Dense dense() const { Dense D(N()); for (int i = 0; i < n; i++) for (int p = rp[i]; p < rp[i + 1]; p++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) D(i * bs + a, ci[p] * bs + b) += at(p, a, b); return D; }
};
inline long nmasks(int n) { return 1L << (n * (n - 1)); }
// off-diagonal positions enumerated row by row; the diagonal is always present
inline std::vector<std::vector<int>> pattern(int n, long mask) {
  std::vector<std::vector<int>> c(n); int bit = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) c[i].push_back(j); else { if (mask >> bit & 1) c[i].push_back(j); bit++; } }
  return c;
}
inline std::vector<std::vector<int>> any_pattern(int n, long mask) {   // diagonal optional
  std::vector<std::vector<int>> c(n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (mask >> (i * n + j) & 1) c[i].push_back(j);
  return c;
}
inline bool symmetric(const std::vector<std::vector<int>>& c) {
  for (size_t i = 0; i < c.size(); i++) for (int j : c[i]) if (std::find(c[j].begin(), c[j].end(), (int)i) == c[j].end()) return false;
  return true;
}
inline std::vector<std::vector<int>> symm_pattern(int n, long mask) {   // mask over pairs i<j
  std::vector<std::vector<int>> c(n); Dense D(n); int bit = 0;
  for (int i = 0; i < n; i++) { D(i,i) = 1; for (int j = i + 1; j < n; j++) { if (mask >> bit & 1) D(i,j) = D(j,i) = 1; bit++; } }
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (D(i,j) != 0) c[i].push_back(j);
  return c;
}
inline std::vector<std::vector<int>> band_pattern(int n, const std::vector<int>& offs) {
  std::vector<std::vector<int>> c(n);
  for (int i = 0; i < n; i++) { std::vector<int> r; r.push_back(i); for (int o : offs) { if (i + o >= 0 && i + o < n) r.push_back(i + o); } std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); c[i] = r; }
  return c;
}
// small pseudo-random dyadic value, a pure function of its arguments
inline double val(int i, int j, int a, int b, int seed) {
  unsigned h = 2166136261u; int q[5] = {i + 1, j + 3, a + 7, b + 11, seed + 13};
  for (int k = 0; k < 5; k++) { h ^= (unsigned)q[k]; h *= 16777619u; h ^= h >> 13; }
  h *= 2654435761u; h ^= h >> 16; h *= 2246822519u; h ^= h >> 13;
  int s = (int)(h % 31) - 15; if (s == 0) s = 16;
  return s / 8.0;
}
// off-diagonal values in [-2,2]; diagonal dominant by rows and columns, positive, non-uniform
inline Mat make(const std::vector<std::vector<int>>& cols, int bs, bool rowmajor, int seed, double boost = 1.0) {
  Mat m; m.n = (int)cols.size(); m.bs = bs; m.rowmajor = rowmajor; m.rp.push_back(0);
  int mx = 1; std::vector<int> cc(m.n, 0);
  for (auto& r : cols) { mx = std::max(mx, (int)r.size()); for (int j : r) if (++cc[j] > mx) mx = cc[j]; }
  for (int i = 0; i < m.n; i++) {
    int d = -1;
    for (int j : cols[i]) { if (j == i) d = (int)m.ci.size(); m.ci.push_back(j); }
    m.di.push_back(d); m.rp.push_back((int)m.ci.size());
  }
  m.v.assign((size_t)m.nnz() * bs * bs, 0.0);
  for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) {
    double x = val(i, m.ci[p], a, b, seed);
    if (m.ci[p] == i && a == b) x = boost * (2.0 * mx * bs + 1.0 + std::fabs(x) * 2);
    m.at(p, a, b) = x;
  }
  return m;
}
inline Vec vec(int n, int seed) { Vec x(n); for (int i = 0; i < n; i++) x[i] = val(i, 0, 0, 0, 1000 + seed); return x; }

/* ---- sequential reference algorithms ---- */
inline Vec scaling(const Mat& m) { Vec s(m.N()); for (int i = 0; i < m.n; i++) for (int a = 0; a < m.bs; a++) s[i * m.bs + a] = 1.0 / std::sqrt(m.at(m.di[i], a, a)); return s; }
inline Mat scaled(const Mat& m, const Vec& s) { Mat r = m; for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) for (int a = 0; a < m.bs; a++) for (int b = 0; b < m.bs; b++) r.at(p, a, b) *= s[i * m.bs + a] * s[m.ci[p] * m.bs + b]; return r; }
inline Dense blockof(const Mat& m, int p) { Dense B(m.bs); for (int a = 0; a < m.bs; a++) for (int b = 0; b < m.bs; b++) B(a,b) = m.at(p, a, b); return B; }
inline void setblock(Mat& m, int p, const Dense& B) { for (int a = 0; a < m.bs; a++) for (int b = 0; b < m.bs; b++) m.at(p, a, b) = B(a,b); }
// incomplete LU on the pattern; L unit lower (block), U upper including the diagonal
inline Mat ilu0(const Mat& m) {
  Mat f = m;
  for (int i = 0; i < m.n; i++)
    for (int p = f.rp[i]; p < f.rp[i + 1]; p++) {
      int k = f.ci[p]; if (k >= i) break;
      Dense L = mul(blockof(f, p), inverse(blockof(f, f.di[k]))); setblock(f, p, L);
      for (int q = f.di[k] + 1; q < f.rp[k + 1]; q++) { int t = f.find(i, f.ci[q]); if (t < 0) continue; Dense P = mul(L, blockof(f, q)), X = blockof(f, t); for (size_t z = 0; z < X.a.size(); z++) X.a[z] -= P.a[z]; setblock(f, t, X); }
    }
  return f;
}
inline Vec bsolve_lower_unit(const Mat& f, const Vec& r) {   // (I+L) y = r, blockwise
  Vec y = r; int bs = f.bs;
  for (int i = 0; i < f.n; i++) for (int p = f.rp[i]; p < f.di[i]; p++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) y[i*bs+a] -= f.at(p,a,b) * y[f.ci[p]*bs+b];
  return y;
}
inline void diag_solve(const Mat& f, int i, Vec& y) { int bs = f.bs; Vec t(bs); for (int a = 0; a < bs; a++) t[a] = y[i*bs+a]; t = solve(blockof(f, f.di[i]), t); for (int a = 0; a < bs; a++) y[i*bs+a] = t[a]; }
inline Vec bsolve_upper(const Mat& f, const Vec& r) {   // (D+U) z = r
  Vec z = r; int bs = f.bs;
  for (int i = f.n - 1; i >= 0; i--) { for (int p = f.di[i] + 1; p < f.rp[i+1]; p++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) z[i*bs+a] -= f.at(p,a,b) * z[f.ci[p]*bs+b]; diag_solve(f, i, z); }
  return z;
}
inline Vec bsolve_lower(const Mat& f, const Vec& r) {   // (D+L) z = r
  Vec z = r; int bs = f.bs;
  for (int i = 0; i < f.n; i++) { for (int p = f.rp[i]; p < f.di[i]; p++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) z[i*bs+a] -= f.at(p,a,b) * z[f.ci[p]*bs+b]; diag_solve(f, i, z); }
  return z;
}
inline Vec bdiag_mul(const Mat& f, const Vec& y) { Vec z(y.size(), 0.0); int bs = f.bs; for (int i = 0; i < f.n; i++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) z[i*bs+a] += f.at(f.di[i],a,b) * y[i*bs+b]; return z; }
inline Vec ilu_apply(const Mat& A, bool scale, const Vec& r) {
  if (!scale) { Mat f = ilu0(A); return bsolve_upper(f, bsolve_lower_unit(f, r)); }
  Vec s = scaling(A); Mat f = ilu0(scaled(A, s)); Vec t = r; for (size_t i = 0; i < t.size(); i++) t[i] *= s[i];
  t = bsolve_upper(f, bsolve_lower_unit(f, t)); for (size_t i = 0; i < t.size(); i++) t[i] *= s[i]; return t;
}
inline Vec sgs_apply(const Mat& A, const Vec& r) { return bsolve_upper(A, bdiag_mul(A, bsolve_lower(A, r))); }
inline Vec jacobi_apply(const Mat& A, const Vec& r) { Vec z = r; for (int i = 0; i < A.n; i++) diag_solve(A, i, z); return z; }
inline void gs_row(const Mat& A, int i, const Vec& b, Vec& x) { int bs = A.bs; Vec t(x); for (int a = 0; a < bs; a++) t[i*bs+a] = b[i*bs+a];
  for (int p = A.rp[i]; p < A.rp[i+1]; p++) if (A.ci[p] != i) for (int a = 0; a < bs; a++) for (int c = 0; c < bs; c++) t[i*bs+a] -= A.at(p,a,c) * x[A.ci[p]*bs+c];
  diag_solve(A, i, t); for (int a = 0; a < bs; a++) x[i*bs+a] = t[i*bs+a]; }
inline Vec gs(const Mat& A, const Vec& b, Vec x, int its, bool symmetric) {
  for (int k = 0; k < its; k++) { for (int i = 0; i < A.n; i++) gs_row(A, i, b, x); if (symmetric) for (int i = A.n - 1; i >= 0; i--) gs_row(A, i, b, x); } return x; }

// longest chain of rows i1 > i2 > ... coupled by lower entries (levels of the lower triangle), and same for upper
inline int lower_depth(const Mat& m) { std::vector<int> d(m.n, 1); int mx = 1; for (int i = 0; i < m.n; i++) { for (int p = m.rp[i]; p < m.rp[i+1]; p++) if (m.ci[p] < i) d[i] = std::max(d[i], d[m.ci[p]] + 1); mx = std::max(mx, d[i]); } return mx; }
inline int upper_depth(const Mat& m) { std::vector<int> d(m.n, 1); int mx = 1; for (int i = m.n - 1; i >= 0; i--) { for (int p = m.rp[i]; p < m.rp[i+1]; p++) if (m.ci[p] > i) d[i] = std::max(d[i], d[m.ci[p]] + 1); mx = std::max(mx, d[i]); } return mx; }

/* ---- comparison ---- */
inline bool close(double a, double b, double tol = 1e-9) { if (!(std::isfinite(a) && std::isfinite(b))) return false; return std::fabs(a - b) <= tol * (1.0 + std::max(std::fabs(a), std::fabs(b))); }
inline void expect(const double* got, const Vec& want, const char* what, double tol = 1e-9) {
  double mx = 0; for (double w : want) mx = std::max(mx, std::fabs(w)); if (mx == 0) mx = 1;      // relative to the largest entry
  for (size_t i = 0; i < want.size(); i++) if (!(std::fabs(got[i] - want[i]) <= tol * mx)) mc::fail(mc::fmt("%s: entry %zu is %.15g, should be %.15g", what, i, got[i], want[i]));
}

/* ---- copies with exact-size, bounds-checked storage (inside an execution) ---- */
template <class T> T* dup(const std::vector<T>& v) { T* p = (T*)malloc(v.size() * sizeof(T)); if (!v.empty()) memcpy(p, v.data(), v.size() * sizeof(T)); return p; }
template <class T> T* fresh(size_t n) { T* p = (T*)malloc(n * sizeof(T)); return p; }   // 0xFF filled: NaN / -1
struct In {      // a matrix as the user's arrays
  const Mat& m; int *rp, *ci, *di; double* v;
  explicit In(const Mat& m_, bool readonly = true) : m(m_), rp(dup(m.rp)), ci(dup(m.ci)), di(dup(m.di)), v(dup(m.v)) {
    if (readonly) { mc::mark_readonly(rp, m.rp.size() * 4); mc::mark_readonly(ci, m.ci.size() * 4); mc::mark_readonly(di, m.di.size() * 4); mc::mark_readonly(v, m.v.size() * 8); }
  }
  void free_all() { mc::clear_readonly(); free(rp); free(ci); free(di); free(v); }
  blasted::SRMatrixStorage<const double, const int> storage() const {
    return blasted::SRMatrixStorage<const double, const int>(rp, ci, v, di, rp + 1, m.n, m.nnz(), m.nnz(), m.bs);
  }
  blasted::CRawBSRMatrix<double, int> raw() const { return blasted::CRawBSRMatrix<double, int>(rp, ci, v, di, rp + 1, m.n, m.nnz(), m.nnz()); }
  void unchanged() const {
    for (size_t i = 0; i < m.v.size(); i++) if (memcmp(&v[i], &m.v[i], 8)) mc::fail("the matrix values were modified");
    for (size_t i = 0; i < m.ci.size(); i++) if (ci[i] != m.ci[i]) mc::fail("the matrix column indices were modified");
    for (size_t i = 0; i < m.rp.size(); i++) if (rp[i] != m.rp[i]) mc::fail("the matrix row pointers were modified");
  }
};
inline const double* ro(const Vec& v) { double* p = dup(v); mc::mark_readonly(p, v.size() * 8); return p; }
} // namespace ref
