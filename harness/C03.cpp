// Symmetric Gauss-Seidel preconditioner
#include "ops.hpp"
#include "wide.hpp"
using namespace ref;
static const ApplyInit AI[3] = {INIT_A_ZERO, INIT_A_JACOBI, INIT_A_NONE};
static const char* AIN[3] = {"zero", "jacobi", "none"};

static void run(mc::Runner& R, const Mat& m, int S, ApplyInit ai, int chunk, const std::vector<Vec>& rs, const mc::Cfg& c, bool onesweep = false) {
  std::vector<Vec> want; for (auto& r : rs) want.push_back(sgs_apply(m, r));
  int T = c.threads;
  R.explore(c, [&]() {
    In in(m);
    OpCfg o; o.type = BLASTED_SGS; o.apply = S; o.ai = ai; o.chunk = chunk;
    Op* op = make_op(in, o);
    op->compute();
    for (size_t k = 0; k < rs.size(); k++) {
      const double* r = ro(rs[k]);
      double* z = fresh<double>(m.N());
      if (ai == INIT_A_NONE) for (int i = 0; i < m.N(); i++) z[i] = 3.0 - i;   // previous contents are the initial guess
      op->apply(r, z);
      if (onesweep) {
        // upper triangular matrix: y = D^-1 r, then one backward sweep from the requested initial iterate
        Vec init(m.N(), 0.0);
        if (ai == INIT_A_JACOBI) init = jacobi_apply(m, rs[k]);
        if (ai == INIT_A_NONE) for (int i = 0; i < m.N(); i++) init[i] = 3.0 - i;
        expect_one_sweep(row_system(m, 2, rs[k]), z, init, "backward sweep");
      }
      else if (!(T > 1 && mc::untracked_loops())) expect(z, want[k], "apply(): (D+U)^-1 D (D+L)^-1 r");
      mc::observe(mc::hash(z, m.N() * 8));
      free(z);
    }
    delete op;
  });
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C03");
  const bool th = R.thorough();
  for (const Lay& L : LAYS) for (int n = 1; n <= 4; n++) {
    long N = nmasks(n), step = n == 4 ? (L.bs == 1 ? (th ? 1 : 3) : (th ? 5 : 57)) : 1;
    for (long b = 0; b < N; b += 16 * step) {
      if (!R.begin(mc::fmt("seq/%s/n=%d/masks=%ld+", L.name, n, b))) continue;
      for (long k = b; k < N && k < b + 16 * step; k += step) for (int a = 0; a < 3; a++) {
        Mat m = make(pattern(n, k), L.bs, L.row, (int)k + 41);
        mc::Cfg c; c.threads = 1;
        run(R, m, 1, AI[a], 1 + (int)(k % 3), rhs_set(m.N()), c);
        run(R, m, 2 + (int)(k & 1), AI[a], 1, rhs_set(m.N()), c);
      }
    }
  }
  auto async = [&](const Lay& L, int n, long k, const std::vector<std::vector<int>>& pat, int a, int chunk, int T, int P, int D, int extra = 0) {
    if (!R.begin(mc::fmt("async/%s/n=%d/mask=%ld/init=%s/chunk=%d/threads=%d/preempt=%d/delay=%d/extra=%d", L.name, n, k, AIN[a], chunk, T, P, D, extra))) return;
    Mat m = make(pat, L.bs, L.row, (int)k + 51);
    int S = enough(std::max(lower_depth(m), upper_depth(m)), D) + extra;
    mc::Cfg c; c.threads = T; c.preempt = P; c.delay = D;
    run(R, m, S, AI[a], chunk, {vec(m.N(), 9)}, c);
  };
  for (int n = 2; n <= 3; n++) for (long k = 0; k < nmasks(n); k++) for (int a = 0; a < 3; a++) {
    async(LAYS[0], n, k, pattern(n, k), a, 1, 2, th ? 4 : n == 2 ? 3 : 2, 0);
    async(LAYS[0], n, k, pattern(n, k), a, 1, 3, th || n == 2 ? 2 : 1, 0);
    async(LAYS[0], n, k, pattern(n, k), a, 1, 2, th || n == 2 ? 2 : 1, 1);
    if (th || (k + a) % 4 == 2) async(LAYS[0], n, k, pattern(n, k), a, 2, 2, 2, 0, 1);
  }
  for (long k = 4095; k >= 0; k -= th ? 17 : 101) async(LAYS[0], 4, k, pattern(4, k), (int)(k % 3), 1, 2, th ? 2 : 1, 0);
  for (int l = 1; l < 4; l++) for (int n = 2; n <= 3; n++) for (long k = 0; k < nmasks(n); k++) {
    if (n == 3 && !th && k % 5 != l) continue;
    for (int a = 0; a < 3; a++) { if (n == 3 && !th && a != k % 3) continue;
      async(LAYS[l], n, k, pattern(n, k), a, 1, 2, th && n == 2 ? 2 : 1, 0);
      if (n == 2 || th) async(LAYS[l], n, k, pattern(n, k), a, 1, 2, 1, n == 2 ? 1 : 0);
    }
  }
  for (const Lay& L : LAYS) for (int chunk : {1, 7, 200}) for (int a = 0; a < 3; a++) {
    int n = L.bs == 1 ? 450 : 30; if (L.bs == 1 && chunk == 1) n = 40; if (L.bs == 1 && chunk == 7) n = 80;
    async(L, n, 0, band_pattern(n, {-n / 2, n / 2}), a, chunk, 2, 0, 0);
  }
  for (const Lay& L : LAYS) for (int n = 2; n <= (L.bs == 1 ? 4 : 3); n++) for (long k = 1; k < (1L << (n * (n - 1) / 2)); k++) {
    if (L.bs > 1 && n == 3 && !th && k != 7 && k != 3) continue;
    if (L.bs == 5 && n == 3) continue;
    for (int a = 0; a < 3; a++) {
      int T = L.bs == 1 && n == 3 ? 3 : 2;
      if (!R.begin(mc::fmt("onesweep/%s/n=%d/tri=%ld/init=%s/threads=%d", L.name, n, k, AIN[a], T))) continue;
      std::vector<std::vector<int>> c(n); int bit = 0;
      for (int i = 0; i < n; i++) c[i].push_back(i);
      for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (k >> bit++ & 1) c[j].push_back(i);
      for (auto& r : c) std::sort(r.begin(), r.end());
      Mat m = make(c, L.bs, L.row, (int)k + 61);
      mc::Cfg q; q.threads = T; q.preempt = L.bs == 1 ? (th ? 3 : 2) : 1;
      run(R, m, 1, AI[a], 1, {vec(m.N(), 8)}, q, true);
    }
  }
  // the same for matrices with both triangles: some outcome of the forward sweep must explain the result of the backward one
  for (const Lay& L : LAYS) for (int n = 2; n <= (L.bs == 1 ? 3 : 2); n++) for (long k = 1; k < nmasks(n); k++) for (int a = 0; a < 3; a++) {
    int T = L.bs == 1 && n == 3 && (k & 1) ? 3 : 2;
    if (!R.begin(mc::fmt("onesweep2/%s/n=%d/mask=%ld/init=%s/threads=%d", L.name, n, k, AIN[a], T))) continue;
    Mat m = make(pattern(n, k), L.bs, L.row, (int)k + 63);
    if (L.bs > 1) for (int i = 0; i < n; i++) for (int p = m.rp[i]; p < m.di[i]; p++) for (int x = 0; x < L.bs; x++) for (int y = 0; y < L.bs; y++) if (y != 2 || (x != 0 && x != 3)) m.at(p, x, y) = 0;
    Vec r = vec(m.N(), 8), guess(m.N(), 0.0); for (int i = 0; i < m.N(); i++) guess[i] = 3.0 - i;
    std::vector<Vec> Y = one_sweep_results(row_system(m, 1, r), Vec(m.N(), 0.0), false);
    std::vector<RowSys> Z; for (auto& y : Y) Z.push_back(row_system(m, 2, bdiag_mul(m, y)));
    if (Y.empty()) continue;
    mc::Cfg q; q.threads = T; q.preempt = L.bs == 1 ? (th || n == 2 ? 3 : 2) : 1;
    R.explore(q, [&]() {
      In in(m); OpCfg o; o.type = BLASTED_SGS; o.apply = 1; o.ai = AI[a]; o.chunk = 1;
      Op* op = make_op(in, o); op->compute();
      double* z = AI[a] == INIT_A_NONE ? dup(guess) : fresh<double>(m.N()); op->apply(ro(r), z);
      mc::observe(mc::hash(z, m.N() * 8));
      bool ok = false; for (size_t c = 0; c < Y.size() && !ok; c++) { ok = true; for (int i = 0; i < n && ok; i++) ok = row_possible(Z[c], z, AI[a] == INIT_A_ZERO ? Vec(m.N(), 0.0) : AI[a] == INIT_A_NONE ? guess : Y[c], i); }
      if (!ok) mc::fail("the result after one sweep is not explained by any mix of old and new values in the two sweeps");
      delete op; free(z);
    });
  }
  // long and dense rows, many rows, unusual values, large teams
  for (const Lay& L : LAYS) for (auto& F : families(L.bs)) {
    if (!R.begin(mc::fmt("wide/%s/%s", L.name, F.name.c_str()))) continue;
    Mat m = make(F, L.bs, L.row, 27); std::vector<Vec> rs = {times(vec(m.N(), 25), unit(F.vc))};
    for (int a = 0; a < 3; a++) {
      mc::Cfg c; c.threads = 1; run(R, m, 1, AI[a], a ? 1000 : 5, rs, c); run(R, m, 2, AI[a], 3, rs, c);
      if (F.big) continue;
      for (int T : {2, 5, 17}) { mc::Cfg c; c.threads = T; c.preempt = 0; c.delay = 0; c.deviations = T == 2 || (T == 5 && F.pat.size() < 10) ? 1 : 0; run(R, m, enough(std::max(lower_depth(m), upper_depth(m)), 0), AI[a], F.pat.size() < 10 ? 1 : 3, rs, c); }
    }
  }
  // work done in reverse order: every one of many sweeps counts
  for (const Lay& L : LAYS) for (int n : {5, 14, 22}) for (int kind = 0; kind < 3; kind++) for (int T : {n, (n + 2) / 3}) {
    if (!R.begin(mc::fmt("reversed/%s/n=%d/kind=%d/threads=%d", L.name, n, kind, T))) continue;
    Mat m = chain(n, L.bs, L.row, kind);
    for (int a = 0; a < 3; a++) { mc::Cfg c; c.threads = T; c.preempt = 0; c.delay = 0; c.policy = 1; c.deviations = n == 5 || (L.bs == 1 && n == 14) ? 1 : 0; run(R, m, n, AI[a], T == n ? 1 : 2, {vec(m.N(), 28)}, c); }
  }
  return R.finish();
}
