// Inputs beyond the small exhaustive ones: long and dense rows and columns, many rows, unusual values.
#pragma once
#include "ref.hpp"
namespace ref {
typedef std::vector<std::vector<int>> Pat;
enum { VC_PLAIN, VC_NEG, VC_ZEROS, VC_TINY, VC_HUGE, VC_WEAK, VC_PIVOT, VC_DIAGBLK, VC_TRILBLK, VC_TRIUBLK };
struct Fam { std::string name; Pat pat; int vc; bool big; };      // big: for one thread only
inline Pat arrow(int n, bool tail) { Pat c(n); for (int i = 0; i < n; i++) { if (tail) { if (i == n - 1) for (int j = 0; j < n; j++) c[i].push_back(j); else c[i] = {i, n - 1}; } else { if (i == 0) for (int j = 0; j < n; j++) c[i].push_back(j); else c[i] = {0, i}; } } return c; }
inline Pat dense_pat(int n, bool lower) { Pat c(n); for (int i = 0; i < n; i++) for (int j = 0; j < (lower ? i + 1 : n); j++) c[i].push_back(j); return c; }
inline Pat scattered(int n, bool symm, int per = 7) { Pat c(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int a = symm ? std::min(i, j) : i, b = symm ? std::max(i, j) : j; if (i == j || (int)(std::fabs(val(a, b, 1, 2, 77)) * 8) + 16 * ((a * 31 + b * 17) % std::max(1, n / per / 2)) < 8) c[i].push_back(j); } return c; }
// the first three rows and columns full: products of three long rows reach every entry of the first rows and columns
inline Pat thick_arrow(int n) { Pat c(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i < 3 || j < 3 || i == j) c[i].push_back(j); return c; }
inline std::vector<Fam> families(int bs, bool symm_only = false) {
  std::vector<Fam> f; bool s = bs == 1;
  f.push_back({"arrow-head", arrow(s ? 70 : 20, false), VC_PLAIN, false});
  f.push_back({"arrow-tail", arrow(s ? 70 : 20, true), VC_PLAIN, false});
  f.push_back({"dense", dense_pat(s ? 24 : 7, false), VC_WEAK, false});
  f.push_back({"scattered-symmetric", scattered(s ? 60 : 14, true), VC_PLAIN, false});
  f.push_back({"tridiagonal", band_pattern(s ? 1200 : 150, {-1, 1}), VC_PLAIN, true});
  f.push_back({"wide-arrow", arrow(s ? 600 : 70, false), VC_PLAIN, true});
  f.push_back({"wide-arrow-tail", arrow(s ? 600 : 70, true), VC_PLAIN, true});
  f.push_back({"thick-arrow", thick_arrow(s ? 150 : 24), VC_WEAK, true});
  if (!symm_only) { f.push_back({"lower", dense_pat(s ? 40 : 8, true), VC_PLAIN, false}); f.push_back({"scattered", scattered(s ? 60 : 14, false), VC_ZEROS, false}); }
  static const char* N[] = {"", "negative", "zeros", "tiny", "huge", "weak"};
  for (int v = 1; v <= 5; v++) { f.push_back({std::string("full3-") + N[v], dense_pat(3, false), v, false}); f.push_back({std::string("grid-") + N[v], band_pattern(6, {-3, -1, 1, 3}), v, false}); }
  // shapes of the diagonal blocks: elimination without row exchanges fails, diagonal, triangular
  static const char* B[] = {"pivot-blocks", "diagonal-blocks", "lower-blocks", "upper-blocks"};
  if (bs > 1) for (int v = 0; v < 4; v++) { f.push_back({std::string("full3-") + B[v], dense_pat(3, false), VC_PIVOT + v, false}); f.push_back({std::string("grid-") + B[v], band_pattern(6, {-3, -1, 1, 3}), VC_PIVOT + v, false}); }
  return f;
}
inline bool no_scaling(const Fam& F) { return F.vc == VC_NEG || F.vc == VC_PIVOT; }     // diagonal entries that are not positive
// patterns without (some) diagonal entries and with empty rows and columns, and every size around the usual thresholds
inline std::vector<Fam> holes(int bs) {
  std::vector<Fam> f; bool s = bs == 1; int n = s ? 61 : 18;
  Pat a(n), b(n), c(n), d(n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    if (i % 3 != 1 && (i * 7 + j * 5) % 11 == 0) a[i].push_back(j);          // every third row empty
    if (j % 4 != 2 && (i + j) % 6 == 0 && i != j) b[i].push_back(j);         // no diagonal, empty columns
    if (i < n / 3 && (i + 2 * j) % 5 == 0) c[i].push_back(j);                // last rows empty
    if (i >= 2 * n / 3 && (j == n - 1 - i || j % 9 == 0)) d[i].push_back(j); // first rows empty
  }
  f.push_back({"every-third-empty", a, VC_PLAIN, false}); f.push_back({"no-diagonal", b, VC_NEG, false}); f.push_back({"last-empty", c, VC_ZEROS, false}); f.push_back({"first-empty", d, VC_PLAIN, false});
  return f;
}
inline std::vector<Fam> sizes(int bs) {
  std::vector<Fam> f;
  for (int n = 1; n <= (bs == 1 ? 70 : 36); n++) f.push_back({"size-" + std::to_string(n), band_pattern(n, {-n / 2 - 1, -1, 3}), VC_PLAIN, false});
  if (bs == 1) for (int n : {99, 100, 101, 127, 128, 129, 192, 255, 256, 257, 511, 512, 513}) f.push_back({"size-" + std::to_string(n), band_pattern(n, {-n / 2, -1, 3}), VC_PLAIN, true});
  return f;
}
inline double unit(int vc) { return vc == VC_TINY ? std::ldexp(1.0, -30) : vc == VC_HUGE ? std::ldexp(1.0, 30) : 1.0; }
// matrix of a family; right-hand sides should be multiplied by unit(vc), so that solutions are of order one
inline Mat make(const Fam& F, int bs, bool rowmajor, int seed) {
  Mat m = make(F.pat, bs, rowmajor, seed, F.vc == VC_WEAK ? 0.6 : 1.0);
  for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) { double& x = m.at(p, a, b); bool dg = p == m.di[i] && a == b;
    if (F.vc == VC_NEG && i % 2 == 0) x = -x; if (F.vc == VC_ZEROS && !dg && (i + 2 * m.ci[p] + a + 3 * b + seed) % 3 == 0) x = 0; x *= unit(F.vc); }
  if (F.vc >= VC_PIVOT) for (int i = 0; i < m.n; i++) if (m.di[i] >= 0) { Dense B = blockof(m, m.di[i]), C(bs);
    for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) { if (F.vc == VC_PIVOT) C(a, (b + 1 + i % (bs - 1)) % bs) = a != b && (a + b + i) % 3 == 0 ? 0 : B(a, b); else if (a == b || (F.vc == VC_TRILBLK && b < a) || (F.vc == VC_TRIUBLK && b > a)) C(a, b) = B(a, b); }
    setblock(m, m.di[i], C); }
  return m;
}
// a symmetric-pattern matrix on which (symmetric) Gauss-Seidel iterations settle slowly: every iteration counts
inline Mat slow(int bs, bool rowmajor, bool sgs, int n = 6) {
  Mat m = make(band_pattern(n, {-3, -1, 1, 3}), bs, rowmajor, 71); Vec b = vec(m.N(), 72), x = vec(m.N(), 73);
  for (int it = 0; it < 80; it++) {
    auto diff = [&](int k) { Vec u = gs(m, b, x, k, sgs), w = gs(m, b, x, k + 1, sgs); double d = 0; for (size_t i = 0; i < u.size(); i++) d = std::max(d, std::fabs(u[i] - w[i])); return d; };
    if (diff(20) > 0.02 * diff(10)) return m;
    for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) if (p != m.di[i]) for (int a = 0; a < bs * bs; a++) m.v[(size_t)p * bs * bs + a] *= 1.1;
  }
  return m;
}
// strongly coupled chain of rows (kind 0: each row on the previous one, 1: on the next one, 2: both): with the work done in
// reverse order, every one of n sweeps moves information by one row only
inline Mat chain(int n, int bs, bool rowmajor, int kind) {
  Mat m = make(band_pattern(n, kind == 0 ? std::vector<int>{-1} : kind == 1 ? std::vector<int>{1} : std::vector<int>{-1, 1}), bs, rowmajor, 91);
  for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) if (p != m.di[i]) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) {
    double in = 0; for (int c = 0; c < bs; c++) in += (c == a ? 1 : -1) * std::fabs(m.at(m.di[i], a, c));
    m.at(p, a, b) = a == b ? ((i + a) % 3 ? -1 : 1) * (kind == 2 ? 0.45 : 0.9) * in : 0;
  }
  return m;
}
inline Vec times(Vec v, double s) { for (auto& x : v) x *= s; return v; }
} // namespace ref
