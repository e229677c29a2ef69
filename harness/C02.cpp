// Asynchronous application of ILU(0) factors
#include "ops.hpp"
#include "wide.hpp"
using namespace ref;
static const ApplyInit AI[2] = {INIT_A_ZERO, INIT_A_JACOBI};
static const char* AIN[2] = {"zero", "jacobi"};

static void run(mc::Runner& R, const Mat& m, bool scale, BlastedSolverType type, int S, ApplyInit ai, int chunk, const std::vector<Vec>& rs, const mc::Cfg& c0, bool onesweep = false) {
  std::vector<Vec> want; for (auto& r : rs) want.push_back(ilu_apply(m, scale, r));
  Mat f = ilu0(scale ? scaled(m, scaling(m)) : m); Vec s = scale ? scaling(m) : Vec(m.N(), 1.0);
  bool lower = lower_depth(m) > 1;
  int T = c0.threads;
  mc::Cfg c = c0;
  R.explore(c, [&]() {
    In in(m);
    OpCfg o; o.type = type; o.build = 1; o.apply = S; o.ai = ai; o.scale = scale; o.chunk = chunk; o.fi = INIT_F_ORIGINAL;
    Op* op = make_op(in, o);
    mc::set_threads(1); op->compute();
    mc::set_threads(T);
    for (size_t k = 0; k < rs.size(); k++) {
      const double* r = ro(rs[k]);
      double* z = fresh<double>(m.N());
      op->apply(r, z);
      if (onesweep) {
        // one of the two triangles is diagonal: the other solve is observable row by row
        Vec t = rs[k]; for (size_t q = 0; q < t.size(); q++) t[q] *= s[q];
        double* w = fresh<double>(m.N()); for (int q = 0; q < m.N(); q++) w[q] = z[q] / s[q];
        if (lower) { Vec y = bdiag_mul(f, Vec(w, w + m.N())); expect_one_sweep(row_system(f, 0, t), y.data(), Vec(m.N(), 0.0), "lower solve"); }
        else expect_one_sweep(row_system(f, 2, t), w, ai == INIT_A_ZERO ? Vec(m.N(), 0.0) : t, "upper solve");
        free(w);
      }
      else if (!(T > 1 && mc::untracked_loops())) expect(z, want[k], "apply(): U^-1 L^-1 r");
      mc::observe(mc::hash(z, m.N() * 8));
      free(z);
    }
    delete op;
  });
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C02");
  const bool th = R.thorough();
  // exact in one sweep: one thread, or sequential application requested
  for (const Lay& L : LAYS) for (int n = 1; n <= 4; n++) {
    long N = nmasks(n), step = n == 4 ? (L.bs == 1 ? (th ? 1 : 5) : (th ? 11 : 117)) : (n == 3 && L.bs > 1 && !th ? 3 : 1);
    for (long b = 0; b < N; b += 16 * step) {
      if (!R.begin(mc::fmt("seq/%s/n=%d/masks=%ld+", L.name, n, b))) continue;
      for (long k = b; k < N && k < b + 16 * step; k += step) for (int s = 0; s < 2; s++) for (int a = 0; a < 2; a++) {
        Mat m = make(pattern(n, k), L.bs, L.row, (int)k + 11);
        mc::Cfg c; c.threads = 1;
        auto rs = rhs_set(m.N());
        run(R, m, s, BLASTED_SFILU0, 1, AI[a], 1 + (int)(k % 3), rs, c);
        run(R, m, s, BLASTED_ILU0, 1 + (int)(k % 2), AI[a], 1, rs, c);
        if (a == k % 2) { c.threads = 2; c.preempt = 1; rs.resize(1); run(R, m, s, BLASTED_SEQILU0, 1, AI[a], 1, rs, c); run(R, m, s, BLASTED_SAPILU0, 1, AI[a], 1, rs, c); }
      }
    }
  }
  auto async = [&](const Lay& L, int n, long k, const std::vector<std::vector<int>>& pat, int s, int a, int chunk, int T, int P, int D) {
    if (!R.begin(mc::fmt("async/%s/n=%d/mask=%ld/scale=%d/init=%s/chunk=%d/threads=%d/preempt=%d/delay=%d", L.name, n, k, s, AIN[a], chunk, T, P, D))) return;
    Mat m = make(pat, L.bs, L.row, (int)k + 21);
    int S = enough(std::max(lower_depth(m), upper_depth(m)), D);
    mc::Cfg c; c.threads = T; c.preempt = P; c.delay = D;
    run(R, m, s, BLASTED_SFILU0, S, AI[a], chunk, {vec(m.N(), 7)}, c);
  };
  for (int n = 2; n <= 3; n++) for (long k = 0; k < nmasks(n); k++) for (int s = 0; s < 2; s++) for (int a = 0; a < 2; a++) {
    async(LAYS[0], n, k, pattern(n, k), s, a, 1, 2, th || n == 2 ? 3 : 2, 0);
    if (th || (k + a) % 4 == 0) async(LAYS[0], n, k, pattern(n, k), s, a, 1, 3, th || n == 2 ? 2 : 1, 0);
    if (th || (k + a + s) % 4 == 1) async(LAYS[0], n, k, pattern(n, k), s, a, 1, 2, th || n == 2 ? 2 : 1, 1);
    if (th || (k + a) % 8 == 2) async(LAYS[0], n, k, pattern(n, k), s, a, 2, 2, 2, 0);
  }
  for (long k = 4095; k >= 0; k -= th ? 17 : 131) async(LAYS[0], 4, k, pattern(4, k), k & 1, (int)(k / 2 % 2), 1, 2, th ? 2 : 1, 0);
  for (int l = 1; l < 4; l++) for (int n = 2; n <= 3; n++) for (long k = 0; k < nmasks(n); k++) {
    if (n == 3 && !th && k % 7 != l) continue;
    for (int s = 0; s < 2; s++) { if (n == 3 && !th && s != (k & 1)) continue;
      async(LAYS[l], n, k, pattern(n, k), s, (int)((k + l + s) % 2), 1, 2, th && n == 2 ? 2 : 1, 0);
      if (n == 2 || th) async(LAYS[l], n, k, pattern(n, k), s, (int)((k + l + s + 1) % 2), 1, 2, 1, n == 2 ? 1 : 0);
    }
  }
  for (const Lay& L : LAYS) for (int chunk : {1, 7, 200}) for (int a = 0; a < 2; a++) {
    int n = L.bs == 1 ? 450 : 30; if (L.bs == 1 && chunk == 1) n = 40; if (L.bs == 1 && chunk == 7) n = 80;
    async(L, n, 0, band_pattern(n, {-n / 2, n / 2}), 1, a, chunk, 2, 0, 0);
  }
  // one sweep under every schedule: the row values are explained by initial or final values of what they depend on
  for (const Lay& L : LAYS) for (int n = 2; n <= (L.bs == 1 ? 4 : 3); n++) for (long k = 1; k < (1L << (n * (n - 1) / 2)); k++) for (int up = 0; up < 2; up++) {
    if (L.bs > 1 && n == 3 && !th && k != 7 && k != 3) continue;
    if (L.bs == 5 && n == 3) continue;
    for (int s = 0; s < 2; s++) for (int a = 0; a < 2; a++) {
      int T = L.bs == 1 && n == 3 ? 3 : 2;
      if (!R.begin(mc::fmt("onesweep/%s/n=%d/tri=%ld/upper=%d/scale=%d/init=%s/threads=%d", L.name, n, k, up, s, AIN[a], T))) continue;
      std::vector<std::vector<int>> c(n); int bit = 0;
      for (int i = 0; i < n; i++) { c[i].push_back(i); }
      for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (k >> bit++ & 1) { if (up) c[j].push_back(i); else c[i].push_back(j); }
      for (auto& r : c) std::sort(r.begin(), r.end());
      Mat m = make(c, L.bs, L.row, (int)k + 31);
      mc::Cfg q; q.threads = T; q.preempt = L.bs == 1 ? (th ? 3 : 2) : 1;
      run(R, m, s, BLASTED_SFILU0, 1, AI[a], 1, {vec(m.N(), 8)}, q, true);
    }
  }
  // the same for matrices with both triangles: some outcome of the lower solve must explain the result of the upper one
  for (const Lay& L : LAYS) for (int n = 2; n <= (L.bs == 1 ? 3 : 2); n++) for (long k = 1; k < nmasks(n); k++) for (int s = 0; s < 2; s++) for (int a = 0; a < 2; a++) {
    int T = L.bs == 1 && n == 3 && (k & 1) ? 3 : 2;
    if (!R.begin(mc::fmt("onesweep2/%s/n=%d/mask=%ld/scale=%d/init=%s/threads=%d", L.name, n, k, s, AIN[a], T))) continue;
    Mat m = make(pattern(n, k), L.bs, L.row, (int)k + 33);
    if (L.bs > 1) for (int i = 0; i < n; i++) for (int p = m.rp[i]; p < m.di[i]; p++) for (int x = 0; x < L.bs; x++) for (int y = 0; y < L.bs; y++) if (x != 1 || y != 2) m.at(p, x, y) = 0;
    Mat f = ilu0(s ? scaled(m, scaling(m)) : m); Vec sc = s ? scaling(m) : Vec(m.N(), 1.0), r = vec(m.N(), 8), t = r; for (int q = 0; q < m.N(); q++) t[q] *= sc[q];
    std::vector<Vec> Y = one_sweep_results(row_system(f, 0, t), Vec(m.N(), 0.0), false);
    std::vector<RowSys> Z; for (auto& y : Y) Z.push_back(row_system(f, 2, y));
    if (Y.empty()) continue;
    mc::Cfg q; q.threads = T; q.preempt = L.bs == 1 ? (th || n == 2 ? 3 : 2) : 1;
    R.explore(q, [&]() {
      In in(m); OpCfg o; o.type = BLASTED_SFILU0; o.build = 1; o.apply = 1; o.ai = AI[a]; o.scale = s; o.chunk = 1; o.fi = INIT_F_ORIGINAL;
      Op* op = make_op(in, o); mc::set_threads(1); op->compute(); mc::set_threads(T);
      double* z = fresh<double>(m.N()); op->apply(ro(r), z);
      mc::observe(mc::hash(z, m.N() * 8)); for (int i = 0; i < m.N(); i++) z[i] /= sc[i];
      bool ok = false; for (size_t c = 0; c < Y.size() && !ok; c++) { ok = true; for (int i = 0; i < n && ok; i++) ok = row_possible(Z[c], z, AI[a] == INIT_A_ZERO ? Vec(m.N(), 0.0) : Y[c], i); }
      if (!ok) mc::fail("the result after one sweep is not explained by any mix of old and new values in the two solves");
      delete op; free(z);
    });
  }
  // long and dense rows, many rows, unusual values, large teams
  for (const Lay& L : LAYS) for (auto& F : families(L.bs)) for (int s = 0; s < 2; s++) {
    if ((s && no_scaling(F)) || !R.begin(mc::fmt("wide/%s/%s/scale=%d", L.name, F.name.c_str(), s))) continue;
    Mat m = make(F, L.bs, L.row, s + 17); std::vector<Vec> rs = {times(vec(m.N(), 15), unit(F.vc))};
    for (int a = 0; a < 2; a++) {
      mc::Cfg c; c.threads = 1; run(R, m, s, BLASTED_SFILU0, 1, AI[a], a ? 1000 : 5, rs, c); run(R, m, s, BLASTED_ILU0, 2, AI[a], 3, rs, c); run(R, m, s, BLASTED_SEQILU0, 1, AI[a], 3, rs, c); run(R, m, s, BLASTED_SAPILU0, 1, AI[a], 3, rs, c);
      if (F.big) continue;
      for (int T : {2, 5, 17}) { mc::Cfg c; c.threads = T; c.preempt = 0; c.delay = 0; c.deviations = T == 2 || (T == 5 && F.pat.size() < 10) ? 1 : 0; run(R, m, s, BLASTED_SFILU0, enough(std::max(lower_depth(m), upper_depth(m)), 0), AI[a], F.pat.size() < 10 ? 1 : 3, rs, c); }
    }
  }
  // work done in reverse order: every one of many sweeps counts
  for (const Lay& L : LAYS) for (int n : {5, 14, 22}) for (int kind = 0; kind < 3; kind++) for (int s = 0; s < 2; s++) for (int T : {n, (n + 2) / 3}) {
    if (!R.begin(mc::fmt("reversed/%s/n=%d/kind=%d/scale=%d/threads=%d", L.name, n, kind, s, T))) continue;
    Mat m = chain(n, L.bs, L.row, kind);
    for (int a = 0; a < 2; a++) { mc::Cfg c; c.threads = T; c.preempt = 0; c.delay = 0; c.policy = 1; c.deviations = n == 5 || (L.bs == 1 && n == 14) ? 1 : 0; run(R, m, s, BLASTED_SFILU0, n, AI[a], T == n ? 1 : 2, {vec(m.N(), 18)}, c); }
  }
  return R.finish();
}
