// Sparse approximate inverse: patterns and values
#include "ref.hpp"
#include "sai.hpp"
using namespace ref;
using namespace blasted;
#include "wide.hpp"
using ref::Pat;
typedef SRMatrixStorage<const double,const int> CS;
// rows as (start, end) ranges into the stored entries: 0 whole matrix, -1 lower triangular view, 1 upper triangular view
struct Rows { std::vector<int> b, e; };
static Rows rows_of(const Mat& m, int part) { Rows r; for (int i = 0; i < m.n; i++) { r.b.push_back(part > 0 ? m.di[i] : m.rp[i]); r.e.push_back(part < 0 ? m.di[i] + 1 : m.rp[i + 1]); } return r; }
// equations of row i: full SAI - all columns reached by the rows of the pattern; incomplete - the pattern itself
static std::vector<int> equations(const Mat& m, const Rows& r, int i, bool full) {
  std::vector<int> q; for (int p = r.b[i]; p < r.e[i]; p++) { if (!full) { q.push_back(m.ci[p]); continue; } int j = m.ci[p]; for (int k = r.b[j]; k < r.e[j]; k++) q.push_back(m.ci[k]); }
  std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); return q;
}
static void check_pattern(const Mat& m, const Rows& r, const LeftSAIPattern<int>& s, bool full) {
  const char* w = full ? "SAI pattern" : "incomplete SAI pattern"; int n = m.n;
  if ((int)s.sairowptr.size() != n + 1 || s.sairowptr[0] != 0 || (int)s.nVars.size() != n || (int)s.nEqns.size() != n || (int)s.localCentralRow.size() != n) mc::fail(mc::fmt("%s: array lengths do not fit the matrix", w));
  for (int i = 0; i < n; i++) {
    int nv = r.e[i] - r.b[i]; auto q = equations(m, r, i, full);
    if (s.nVars[i] != nv) mc::fail(mc::fmt("%s: row %d has %d unknowns, should have %d", w, i, s.nVars[i], nv));
    if (s.nEqns[i] != (int)q.size()) mc::fail(mc::fmt("%s: row %d has %d equations, should have %zu", w, i, s.nEqns[i], q.size()));
    if (s.sairowptr[i + 1] - s.sairowptr[i] != nv || s.sairowptr[i + 1] + 1 > (int)s.bcolptr.size()) mc::fail(mc::fmt("%s: columns of row %d start at %d and end at %d, should be %d of them", w, i, s.sairowptr[i], s.sairowptr[i + 1], nv));
    int central = (int)(std::find(q.begin(), q.end(), i) - q.begin());
    if (s.localCentralRow[i] != central) mc::fail(mc::fmt("%s: central equation of row %d is %d, should be %d", w, i, s.localCentralRow[i], central));
    for (int v = 0; v < nv; v++) {
      int j = m.ci[r.b[i] + v]; std::vector<std::pair<int,int>> want, got;
      for (int k = r.b[j]; k < r.e[j]; k++) { auto it = std::lower_bound(q.begin(), q.end(), m.ci[k]); if (it != q.end() && *it == m.ci[k]) want.push_back({k, (int)(it - q.begin())}); }
      int b = s.bcolptr[s.sairowptr[i] + v], e = s.bcolptr[s.sairowptr[i] + v + 1];
      if (i == 0 && v == 0 && b != 0) mc::fail(mc::fmt("%s: the first column does not start at 0", w));
      if (e < b || e > (int)s.bpos.size() || s.bpos.size() != s.browind.size()) mc::fail(mc::fmt("%s: column %d of row %d ends at %d", w, v, i, e));
      for (int z = b; z < e; z++) got.push_back({s.bpos[z], s.browind[z]});
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
      if (got != want) mc::fail(mc::fmt("%s: row %d, unknown %d (column %d): wrong matrix entries or local equations", w, i, v, j));
    }
  }
  if (s.bcolptr.back() != (int)s.bpos.size()) mc::fail(mc::fmt("%s: lists and pointers disagree", w));
  mc::trans_add(1); mc::observe(mc::hash(s.bpos.data(), s.bpos.size() * 4, s.bpos.size()));
}
// normal equations of the least-squares problem of block row i (square system: same solution)
static std::vector<double> row_values(const Mat& m, const Rows& r, int i, bool full) {
  int bs = m.bs, nv = r.e[i] - r.b[i]; auto q = equations(m, r, i, full); int K = nv * bs, E = (int)q.size() * bs;
  std::vector<double> L((size_t)E * K, 0.0);        // L(e, k) = A(row of unknown, column of equation)
  for (int v = 0; v < nv; v++) { int j = m.ci[r.b[i] + v]; for (int p = r.b[j]; p < r.e[j]; p++) { auto it = std::lower_bound(q.begin(), q.end(), m.ci[p]); if (it == q.end() || *it != m.ci[p]) continue; int t = (int)(it - q.begin());
    for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) L[(size_t)(t * bs + b) * K + v * bs + a] = m.at(p, a, b); } }
  int c = (int)(std::find(q.begin(), q.end(), i) - q.begin());
  Dense N(K); for (int a = 0; a < K; a++) for (int b = 0; b < K; b++) for (int e = 0; e < E; e++) N(a,b) += L[(size_t)e * K + a] * L[(size_t)e * K + b];
  std::vector<double> out((size_t)nv * bs * bs);    // block v, entry (a, b): row a of M
  for (int a = 0; a < bs; a++) { Vec h(K); for (int k = 0; k < K; k++) h[k] = L[(size_t)(c * bs + a) * K + k]; Vec x = solve(N, h); for (int v = 0; v < nv; v++) for (int b = 0; b < bs; b++) out[(size_t)v * bs * bs + a * bs + b] = x[v * bs + b]; }
  return out;
}
struct Ref { Rows r; std::vector<std::vector<double>> full, inc; };
template <int bs> static void compute(const Mat& m, const Ref& f, int part, bool full, int chunk) {
  In in(m);
  { int *b = dup(f.r.b), *e = dup(f.r.e); int nnz = 0; for (int i = 0; i < m.n; i++) nnz += f.r.e[i] - f.r.b[i];
    std::vector<int> whole(f.r.b); whole.push_back(f.r.e.empty() ? 0 : f.r.e.back());
    int* bp = part == 0 ? in.rp : b;
    CS st(bp, in.ci, in.v, in.di, e, m.n, nnz, m.nnz(), bs);
    LeftSAIPattern<int> sp = full ? left_SAI_pattern<double,int>(CS(bp, in.ci, in.v, in.di, e, m.n, nnz, m.nnz(), bs)) : left_incomplete_SAI_pattern<double,int>(CS(bp, in.ci, in.v, in.di, e, m.n, nnz, m.nnz(), bs));
    check_pattern(m, f.r, sp, full);
    double* out = fresh<double>(m.v.size());
    SRMatrixStorage<double,int> sai(bp, in.ci, out, in.di, e, m.n, nnz, m.nnz(), bs);
    compute_SAI<double,int,bs,ColMajor>(st, sp, chunk, full, sai);
    for (int i = 0; i < m.n; i++) for (int p = f.r.b[i]; p < f.r.e[i]; p++) for (int a = 0; a < bs; a++) for (int c = 0; c < bs; c++) {
      double g = out[(size_t)p * bs * bs + c * bs + a], w = (full ? f.full : f.inc)[i][(size_t)(p - f.r.b[i]) * bs * bs + a * bs + c];
      if (!close(g, w, 1e-7)) mc::fail(mc::fmt("%s approximate inverse: entry (%d,%d) of the block at (%d,%d) is %.12g, should be %.12g", full ? "sparse" : "incomplete sparse", a, c, i, m.ci[p], g, w)); }
    mc::observe(mc::hash(out, m.v.size() * 8)); mc::trans_add(1);
    free(out); free(b); free(e); }
  in.unchanged(); in.free_all();
}
template <int bs> static void one(mc::Runner& R, const Pat& p, int seed, int T, int P, int chunk, int which, int parts, int dev = -1) {
  Mat m = make(p, bs, false, seed);
  for (int part = -1; part <= 1; part++) {
    if (part && !parts) continue;
    Ref f; f.r = rows_of(m, part); for (int i = 0; i < m.n; i++) { f.full.push_back(row_values(m, f.r, i, true)); f.inc.push_back(row_values(m, f.r, i, false)); }
    for (int full = 0; full < 2; full++) { if (which >= 0 && which != full) continue; mc::Cfg c; c.threads = T; c.preempt = P; c.deviations = dev; c.check_leaks = true; if (T == 1) c.schedules = false;
      R.explore(c, [&]() { compute<bs>(m, f, part, full, chunk); }); }
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C21");
  const bool th = R.thorough();
  for (int n = 1; n <= 4; n++) {
    long N = nmasks(n);
    for (long b = 0; b < N; b += 32) { if (!R.begin(mc::fmt("csr/n=%d/masks=%ld+", n, b))) continue;
      for (long k = b; k < N && k < b + 32; k++) { one<1>(R, pattern(n, k), 1 + (int)(k % 5), 1, 0, 1 + (int)(k % 3), -1, n < 4 || k % 4 == 1 || th); if (n < 4 || (th && k % 8 == 5)) one<4>(R, pattern(n, k), 1 + (int)(k % 3), 1, 0, 1, -1, n < 4); } }
  }
  for (int n : {6, 12, 30}) for (int kind = 0; kind < 5; kind++) {
    if (!R.begin(mc::fmt("large/n=%d/kind=%d", n, kind))) continue;
    static const std::vector<int> offs[3] = {{-1, 1}, {-4, -1, 1, 4}, {-2, 3}};
    Pat p; if (kind < 3) p = band_pattern(n, offs[kind]); else { p = band_pattern(n, {}); for (int i = 0; i < n; i++) { std::vector<int> r; for (int j = 0; j < n; j++) if (i == j || (kind == 3 ? (i == n / 2 || j == n / 2) : (i * 5 + j * 3) % 7 == 0)) r.push_back(j); p[i] = r; } }
    one<1>(R, p, 2, 1, 0, 2, -1, 1); if (n <= 12) one<4>(R, p, 2, 1, 0, 1, -1, 1);
  }
  for (int T : {2, 3, 4}) for (int chunk : {1, 2}) for (int n = 2; n <= 4; n++) {
    long N = nmasks(n), step = n == 2 ? 1 : n == 3 ? (th ? 1 : 5) : (th ? 97 : 401); if (T > 2 && n == 4) continue;
    for (long k = n == 2 ? 0 : (T + chunk) % step; k < N; k += step) { if (!R.begin(mc::fmt("threads/T=%d/chunk=%d/n=%d/mask=%ld", T, chunk, n, k))) continue; one<1>(R, pattern(n, k), 1, T, 1, chunk, -1, 0); if (n == 2) one<4>(R, pattern(n, k), 1, T, T == 2 ? 1 : 0, chunk, -1, 0); }
  }
  for (auto& F : families(1)) {
    if (F.vc == VC_TINY || F.vc == VC_HUGE || F.name == "wide-arrow" || F.name == "wide-arrow-tail" || !R.begin(mc::fmt("wide/%s", F.name.c_str()))) continue;
    Pat p = F.pat; if (F.big) { p = band_pattern(300, {-1, 1}); } if (F.name == "dense") p = dense_pat(20, false); if (F.name == "lower") p = dense_pat(28, true);
    one<1>(R, p, 3, 1, 0, 2, -1, 1); if (!F.big) for (int T : {5, 17}) one<1>(R, p, 3, T, 0, 1, -1, 0, 0);
    if (p.size() < 10) one<4>(R, p, 3, 5, 0, 1, -1, 0, 0);
  }
  return R.finish();
}
