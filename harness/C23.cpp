// Diagnostics of the factorisation: remainders and diagonal dominance
#include "fac.hpp"
#include "wide.hpp"
using namespace ref;
static void check_info(const PrecInfo& pi, const Mat& As, const Fac& f, const Fac* init, double tol, bool dominance, double u = 1) {
  auto eq = [&](double g, double w, const char* what) { if (!close(g, w, tol)) mc::fail(mc::fmt("%s is %.12g, should be %.12g", what, g, w)); };
  if (init) eq(pi.prec_rem_initial_norm() / u, remainder(As, *init) / u, "initial remainder");
  eq(pi.prec_remainder_norm() / u, remainder(As, f) / u, "final remainder");
  if (!dominance) return;
  int N = As.N(), bs = As.bs; double ua = 0, la = 0, um = 1e300, lm = 1e300;
  for (int i = 0; i < N; i++) { double l = 0, u = 0; for (int j = 0; j < N; j++) { if (j / bs < i / bs) l += std::fabs(f.L(i,j)); else if (j != i) u += std::fabs(f.U(i,j)); }
    l = 1 - l; u = 1 - u / std::fabs(f.U(i,i)); la += l; ua += u; lm = std::min(lm, l); um = std::min(um, u); }
  eq(pi.upper_avg_diag_dom(), ua / N, "average diagonal dominance of U"); eq(pi.lower_avg_diag_dom(), la / N, "average diagonal dominance of L");
  eq(pi.upper_min_diag_dom(), um, "minimum diagonal dominance of U"); eq(pi.lower_min_diag_dom(), lm, "minimum diagonal dominance of L");
}
struct V { FactInit fi; bool scale; int sweeps; int chunk; };
static void one(mc::Runner& R, const Mat& m, const V& v, int T, int P, int D, BlastedSolverType type, int recompute, int dev = -1, double u = 1) {
  Mat m2 = m; for (size_t i = 0; i < m2.v.size(); i++) m2.v[i] *= 1.0 + 0.125 * (double)(i % 3);
  Mat As[2] = {v.scale ? scaled(m, scaling(m)) : m, v.scale ? scaled(m2, scaling(m2)) : m2};
  Fac in0[2] = {initial(As[0], v.fi), initial(As[1], v.fi)};
  mc::Cfg c; c.threads = T; c.preempt = P; c.delay = D; c.deviations = dev; c.check_leaks = true;
  R.explore(c, [&]() {
    In in(m, false);
    OpCfg o; o.type = type; o.build = v.sweeps; o.apply = 1; o.fi = v.fi; o.scale = v.scale; o.chunk = v.chunk; o.info = true;
    Op* op = make_op(in, o); Op* plain = nullptr;
    if (T == 1) { o.info = false; plain = make_op(in, o); }
    for (int t = 0; t <= recompute; t++) {
      if (t) memcpy(in.v, m2.v.data(), m2.v.size() * 8);
      PrecInfo pi = op->compute(); PrecInfo pi2;
      mc::observe(mc::hash(&pi, sizeof pi)); mc::trans_add(1);
      if (v.fi == INIT_F_ZERO && v.sweeps == 0) { if (!close(pi.prec_remainder_norm(), remainder(As[t], in0[t]), 1e-9) || !close(pi.prec_rem_initial_norm(), remainder(As[t], in0[t]), 1e-9)) mc::fail("remainder of the zero factors is wrong"); continue; }
      if (T > 1) mc::set_threads(1);
      Fac f = factors(op, t ? m2 : m, v.scale);
      check_info(pi, As[t], f, v.fi == INIT_F_NONE ? nullptr : &in0[t], T > 1 ? 1e-7 : 1e-8, true, u);
      if (plain) { plain->compute(); int N = m.N(); Vec r = vec(N, 41); double *rr = dup(r), *z1 = fresh<double>(N), *z2 = fresh<double>(N); op->apply(rr, z1); plain->apply(rr, z2);
        for (int i = 0; i < N; i++) if (z1[i] != z2[i]) mc::fail("asking for diagnostics changed the factors"); free(rr); free(z1); free(z2); }
      if (T > 1) mc::set_threads(T);
    }
    delete op; delete plain; in.free_all();
  });
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C23");
  const bool th = R.thorough();
  static const FactInit FI[4] = {INIT_F_ZERO, INIT_F_ORIGINAL, INIT_F_SGS, INIT_F_NONE};
  static const char* FN[4] = {"zero", "orig", "sgs", "none"};
  auto weaken = [](Mat& m) { for (int i = 0; i < m.n; i++) for (int a = 0; a < m.bs; a++) m.at(m.di[i], a, a) *= 0.6; };
  // one thread: every pattern
  for (const Lay& L : LAYS) for (int n = 1; n <= 4; n++) {
    long N = nmasks(n), step = n == 4 ? (L.bs == 1 ? (th ? 1 : 5) : (th ? 13 : 203)) : n == 3 && L.bs > 1 && !th ? 5 : 1, grp = 16;
    for (long b = 0; b < N; b += grp * step) {
      if (!R.begin(mc::fmt("seq/%s/n=%d/masks=%ld+", L.name, n, b))) continue;
      for (long k = b; k < N && k < b + grp * step; k += step) {
        Mat m = make(pattern(n, k), L.bs, L.row, (int)k + 400); if (k & 1) weaken(m);
        for (int f = 0; f < 4; f++) for (int sc = 0; sc < 2; sc++) for (int sw = 0; sw < 2; sw++) { if (f == 3 && !sw) continue; if (L.bs > 1 && n >= 3 && (f + sc + sw + k) % 3) continue; one(R, m, {FI[f], sc == 1, sw, 1 + (int)(k % 3)}, 1, 0, 0, BLASTED_ILU0, k % 3 == 0); }
      }
    }
  }
  // threads: whatever factors this schedule gives, the numbers describe them
  for (const Lay& L : LAYS) for (int n = 2; n <= (L.bs == 1 ? 3 : 2); n++) for (long k = 0; k < nmasks(n); k++) for (int f = 0; f < 3; f++) for (int sc = 0; sc < 2; sc++) for (int T = 2; T <= 3; T++) {
    if (n == 3 && !th && (k * 7 + f * 2 + sc + T) % 12) continue;
    if (n == 2 && T == 3 && L.bs > 1) continue;
    int P = T == 2 && (n == 2 || th) ? 1 : 0;
        if (!R.begin(mc::fmt("par/%s/n=%d/mask=%ld/init=%s/scale=%d/threads=%d/preempt=%d", L.name, n, k, FN[f], sc, T, P))) continue;
    Mat m = make(pattern(n, k), L.bs, L.row, (int)k + 430); if (k & 1) weaken(m);
    one(R, m, {FI[f], sc == 1, f == 0 ? enough(entry_depth(m), 0) : 1, n == 3 ? 2 : 1}, T, P, 0, k % 2 ? BLASTED_SAPILU0 : BLASTED_ILU0, 0);
  }
  // level-scheduled variant (symmetric patterns) and bigger matrices with default chunks
  for (const Lay& L : LAYS) for (int n = 1; n <= 3; n++) for (long k = 0; k < (1L << (n * (n - 1) / 2)); k++) for (int f = 0; f < 3; f++) for (int sc = 0; sc < 2; sc++) {
    if (!R.begin(mc::fmt("level/%s/n=%d/mask=%ld/init=%s/scale=%d", L.name, n, k, FN[f], sc))) continue;
    Mat m = make(symm_pattern(n, k), L.bs, L.row, (int)k + 460);
    one(R, m, {FI[f], sc == 1, 1, 1}, 1, 0, 0, BLASTED_ASYNC_LEVEL_ILU0, 1);
  }
  for (const Lay& L : LAYS) for (int T = 1; T <= 2; T++) for (int chunk = 1; chunk <= 40; chunk += 13) {
    int n = L.bs == 1 ? 40 : 9;
    if (T > 1 && chunk < 40) continue;
    if (!R.begin(mc::fmt("band/%s/n=%d/threads=%d/chunk=%d", L.name, n, T, chunk))) continue;
    Mat m = make(band_pattern(n, {-4, -1, 1, 3}), L.bs, L.row, 77);
    one(R, m, {INIT_F_SGS, chunk % 2 == 0, 1, chunk}, T, 0, 0, BLASTED_SAPILU0, T == 1);
  }
  // long and dense rows, unusual values, large teams
  for (const Lay& L : LAYS) for (auto& F : families(L.bs)) for (int sc = 0; sc < 2; sc++) {
    if (F.big || F.vc == VC_PIVOT || (sc && no_scaling(F)) || !R.begin(mc::fmt("wide/%s/%s/scale=%d", L.name, F.name.c_str(), sc))) continue;
    Mat m = make(F, L.bs, L.row, 67); double u = sc ? 1 : unit(F.vc);
    for (int f = 0; f < 4; f++) one(R, m, {FI[f], sc == 1, f == 3 ? 2 : f == 0 ? 2 : 1, 3 + 50 * (f & 1)}, 1, 0, 0, BLASTED_ILU0, f == 1, -1, u);
    for (int T : {2, 5, 17}) one(R, m, {FI[1 + T % 2], sc == 1, 1, 3}, T, 0, 0, BLASTED_ILU0, 0, T == 2 && F.pat.size() < 10 ? 1 : 0, u);
  }
  return R.finish();
}
