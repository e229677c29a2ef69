// Column-oriented backward Gauss-Seidel: exact on one thread; on several threads, one sweep is explained
#include "ops.hpp"
#include "wide.hpp"
using namespace ref;
/* z_j = D_j^-1 (r_j - sum over some of the columns k > j of A_jk z_k): every column scatters at most once per sweep,
 * with its final value, into the unknowns above it */
static void explained(const Mat& m, const Vec& r, const double* z) {
  for (int j = 0; j < m.n; j++) {
    std::vector<double> t; for (int p = m.di[j] + 1; p < m.rp[j+1]; p++) t.push_back(m.v[p] * z[m.ci[p]]);
    bool ok = false; for (long s = 0; s < (1L << t.size()) && !ok; s++) { double x = r[j]; for (size_t q = 0; q < t.size(); q++) if (s >> q & 1) x -= t[q]; ok = close(x, m.v[m.di[j]] * z[j], 1e-9); }
    if (!ok) mc::fail(mc::fmt("unknown %d is %.12g after one sweep, which no subset of its column contributions explains", j, z[j]));
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C24");
  const bool th = R.thorough();
  auto seq = [&](const Mat& m0, long k, int depth) {   // histories of value changes, recomputes and applications
    std::vector<Mat> vals(2, m0); for (size_t p = 0; p < m0.v.size(); p++) vals[1].v[p] = m0.v[p] * (0.5 + 0.25 * (double)((p * 7 + k) % 5));
    std::vector<Vec> rs = {vec(m0.n, 5), vec(m0.n, 6)};
    std::vector<std::vector<Vec>> want(2); for (int v = 0; v < 2; v++) for (auto& r : rs) want[v].push_back(bsolve_upper(vals[v], r));
    mc::Cfg c; c.threads = 1; c.check_leaks = true;
    R.explore(c, [&]() {
      int sweeps = 1 + mc::choose(3), chunk = 1 + mc::choose(m0.n + 1);
      In in(m0, false);
      OpCfg o; o.type = BLASTED_CSC_BGS; o.apply = sweeps; o.chunk = chunk;
      Op* op = make_op(in, o); int cur = 0, comp = -1;
      if (op->dim() != m0.n || op->relaxationAvailable()) mc::fail("wrong dimension or relaxation reported as available");
      auto apply = [&](int q) { double* r = dup(rs[q]); mc::mark_readonly(r, m0.n * 8); double* z = fresh<double>(m0.n); op->apply(r, z); expect(z, want[cur][q], "column Gauss-Seidel apply"); mc::observe(mc::hash(z, m0.n * 8)); free(z); mc::clear_readonly(); free(r); mc::trans_add(1); };
      op->compute(); comp = 0; apply(0);
      for (int d = 0; d < depth; d++) switch (mc::choose(3)) {
        case 0: cur = 1 - cur; memcpy(in.v, vals[cur].v.data(), m0.v.size() * 8); op->compute(); comp = cur; mc::trans_add(1); break;
        case 1: op->compute(); mc::trans_add(1); break;
        default: apply(1);
      }
      apply(0); (void)comp;
      for (size_t p = 0; p < m0.v.size(); p++) if (in.v[p] != vals[cur].v[p]) mc::fail("the matrix was modified");
      delete op; in.free_all();
    });
  };
  for (int n = 1; n <= 4; n++) { long N = nmasks(n); for (long b = 0; b < N; b += 32) {
    if (!R.begin(mc::fmt("seq/n=%d/masks=%ld+", n, b))) continue;
    for (long k = b; k < N && k < b + 32; k++) { Mat m = make(pattern(n, k), 1, true, (int)k + 500); if (k & 1) for (int i = 0; i < n; i++) m.v[m.di[i]] *= 0.2; seq(m, k, n == 4 ? (th ? 3 : 1) : (th ? 4 : 2)); }
  } }
  // upper triangles of five unknowns, and columns longer than any fixed buffer
  for (long b = 0; b < 1024; b += 32) {
    if (!R.begin(mc::fmt("seq/upper5/masks=%ld+", b))) continue;
    for (long k = b; k < b + 32; k++) { std::vector<std::vector<int>> cc(5); int bit = 0; for (int i = 0; i < 5; i++) { cc[i].push_back(i); for (int j = i + 1; j < 5; j++) if (k >> bit++ & 1) cc[i].push_back(j); } seq(make(cc, 1, true, (int)k), k, 0); }
  }
  for (int n : {40, 130}) if (R.begin(mc::fmt("seq/dense/n=%d", n))) { std::vector<int> off; for (int i = -n; i < n; i++) off.push_back(i);
    Mat m = make(band_pattern(n, off), 1, true, 3); Vec r = vec(n, 4), want = bsolve_upper(m, r);
    for (int chunk : {1, 7, n}) for (int sweeps = 1; sweeps <= 2; sweeps++) { mc::Cfg c; c.threads = 1; c.check_leaks = true; R.explore(c, [&]() { In in(m); OpCfg o; o.type = BLASTED_CSC_BGS; o.apply = sweeps; o.chunk = chunk; Op* op = make_op(in, o); op->compute(); double* z = fresh<double>(n); double* rr = dup(r); op->apply(rr, z); expect(z, want, "column Gauss-Seidel apply"); free(z); free(rr); delete op; in.free_all(); }); } }
  for (auto& F : families(1)) if (R.begin("seq/wide/" + F.name)) {
    Mat m = make(F, 1, true, 3); int n = m.n; Vec r = times(vec(n, 4), unit(F.vc)), want = bsolve_upper(m, r);
    for (int chunk : {1, 7, n}) for (int sweeps = 1; sweeps <= 2; sweeps++) { mc::Cfg c; c.threads = 1; c.check_leaks = true; R.explore(c, [&]() { In in(m); OpCfg o; o.type = BLASTED_CSC_BGS; o.apply = sweeps; o.chunk = chunk; Op* op = make_op(in, o); op->compute(); double* z = fresh<double>(n); double* rr = dup(r); op->apply(rr, z); expect(z, want, "column Gauss-Seidel apply"); free(z); free(rr); delete op; in.free_all(); }); }
  }
  // several threads: one sweep from zero; one chunk for all columns is exact
  for (int n = 2; n <= (th ? 4 : 3); n++) for (long k = 0; k < (1L << (n * (n - 1) / 2)); k++) for (int T = 2; T <= 3; T++) for (int whole = 0; whole < 2; whole++) {
    std::vector<std::vector<int>> cc(n); int bit = 0; for (int i = 0; i < n; i++) { for (int j = 0; j < i; j++) if ((k + i + j) % 2) cc[i].push_back(j); cc[i].push_back(i); for (int j = i + 1; j < n; j++) if (k >> bit++ & 1) cc[i].push_back(j); }
    int P = T == 2 ? 3 : 2; if (n >= 3) P--;
    if (!R.begin(mc::fmt("par/n=%d/upper=%ld/threads=%d/preempt=%d/%s", n, k, T, P, whole ? "one-chunk" : "chunk=1"))) continue;
    Mat m = make(cc, 1, true, (int)k + 520); Vec r = vec(n, 7), want = bsolve_upper(m, r);
    mc::Cfg c; c.threads = T; c.preempt = P; c.check_leaks = true;
    R.explore(c, [&]() {
      In in(m); OpCfg o; o.type = BLASTED_CSC_BGS; o.apply = 1; o.chunk = whole ? n : 1;
      Op* op = make_op(in, o); mc::set_threads(1); op->compute(); mc::set_threads(T);
      double* z = fresh<double>(n); double* rr = dup(r); op->apply(rr, z);
      explained(m, r, z); if (whole && !mc::untracked_loops()) expect(z, want, "one chunk holding all columns");
      mc::observe(mc::hash(z, n * 8)); free(z); free(rr); delete op; in.unchanged(); in.free_all();
    });
  }
  return R.finish();
}
