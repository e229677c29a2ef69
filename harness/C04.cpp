// Chaotic Gauss-Seidel: fixed point, one-thread exactness, one-sweep explanations, exactness on triangular matrices
#include "ops.hpp"
#include "wide.hpp"
using namespace ref;
static SolveParams<double> params(int its) { SolveParams<double> p; p.rtol = 1e-30; p.atol = 1e-30; p.dtol = 1e30; p.ctol = false; p.maxits = its; return p; }

int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C04");
  const bool th = R.thorough();
  // one thread: exactly k (symmetric) Gauss-Seidel iterations
  for (const Lay& L : LAYS) for (int n = 1; n <= 4; n++) {
    long N = nmasks(n), step = n == 4 ? (L.bs == 1 ? (th ? 1 : 3) : (th ? 7 : 97)) : 1;
    for (long b = 0; b < N; b += 16 * step) {
      if (!R.begin(mc::fmt("seq/%s/n=%d/masks=%ld+", L.name, n, b))) continue;
      for (long k = b; k < N && k < b + 16 * step; k += step) {
        Mat m = make(pattern(n, k), L.bs, L.row, (int)k + 71);
        Vec rhs = vec(m.N(), 3), x0 = vec(m.N(), 4);
        for (int its = 0; its <= 3; its++) {
          mc::Cfg c; c.threads = 1;
          R.explore(c, [&]() {
            In in(m);
            for (int t = 0; t < 3; t++) {   // GS apply, GS relax, SGS relax
              OpCfg o; o.type = t == 2 ? BLASTED_SGS : BLASTED_GS; o.apply = t == 0 ? its : 9; o.chunk = 1 + (int)(k % 3); o.relax = t > 0;
              Op* op = make_op(in, o);
              op->setApplyParams(params(t == 0 ? 9 : its));
              op->compute();
              if (!op->relaxationAvailable()) mc::fail("relaxation of Gauss-Seidel is reported as unavailable");
              double* x = t == 0 ? fresh<double>(m.N()) : dup(x0);
              const double* bb = ro(rhs);
              if (t == 0) op->apply(bb, x); else op->apply_relax(bb, x);
              expect(x, gs(m, rhs, t == 0 ? Vec(m.N(), 0.0) : x0, its, t == 2), t == 0 ? "GS apply" : t == 1 ? "GS relaxation" : "SGS relaxation");
              mc::observe(mc::hash(x, m.N() * 8));
              delete op; free(x);
            }
          });
        }
      }
    }
  }
  // exact solution is a fixed point, every schedule and no bound on the delay
  auto fixed = [&](const Lay& L, int n, const std::vector<std::vector<int>>& pat, long k, int sgs, int its, int chunk, int T, int P) {
    if (!R.begin(mc::fmt("fixed/%s/n=%d/mask=%ld/%s/its=%d/chunk=%d/threads=%d/preempt=%d", L.name, n, k, sgs ? "sgs" : "gs", its, chunk, T, P))) return;
    Mat m = make(pat, L.bs, L.row, (int)k + 81);
    Vec x0 = vec(m.N(), 5), rhs = mul(m.dense(), x0);
    mc::Cfg c; c.threads = T; c.preempt = P;
    R.explore(c, [&]() {
      In in(m);
      OpCfg o; o.type = sgs ? BLASTED_SGS : BLASTED_GS; o.chunk = chunk; o.relax = true;
      Op* op = make_op(in, o);
      op->setApplyParams(params(its));
      op->compute();
      double* x = dup(x0);
      op->apply_relax(ro(rhs), x);
      expect(x, x0, "relaxation started at the exact solution");
      mc::observe(mc::hash(x, m.N() * 8));
      delete op; free(x);
    });
  };
  for (int sgs = 0; sgs < 2; sgs++) {
    for (int n = 2; n <= 3; n++) for (long k = 0; k < nmasks(n); k++) {
      fixed(LAYS[0], n, pattern(n, k), k, sgs, 2, 1, 2, 2);
      fixed(LAYS[0], n, pattern(n, k), k, sgs, 1, 1, 3, 2);
      if (k % 4 == 1) fixed(LAYS[0], n, pattern(n, k), k, sgs, 2, 2, 2, 2);
      for (int l = 1; l < 4; l++) if (n == 2 || th || k % 7 == l) fixed(LAYS[l], n, pattern(n, k), k, sgs, 1, 1, 2, 1);
    }
    for (const Lay& L : LAYS) fixed(L, L.bs == 1 ? 450 : 30, band_pattern(L.bs == 1 ? 450 : 30, {-1, 1, 7}), 0, sgs, 2, L.bs == 1 ? 200 : 4, 3, 0);
  }
  // one sweep: every row is explained by initial or final values (apply: from zero; relaxation: from the given guess)
  for (const Lay& L : LAYS) for (int n = 2; n <= (L.bs == 1 ? 4 : 2); n++) for (long k = 0; k < nmasks(n); k += n == 4 ? (th ? 13 : 117) : 1) for (int rel = 0; rel < 2; rel++) {
    int T = n == 3 ? 3 : 2;
    if (!R.begin(mc::fmt("onesweep/%s/n=%d/mask=%ld/%s/threads=%d", L.name, n, k, rel ? "relax" : "apply", T))) continue;
    Mat m = make(pattern(n, k), L.bs, L.row, (int)k + 91);
    Vec rhs = vec(m.N(), 6), x0 = vec(m.N(), 7);
    RowSys S = row_system(m, 3, rhs);
    mc::Cfg c; c.threads = T; c.preempt = L.bs == 1 ? 2 : 1;
    R.explore(c, [&]() {
      In in(m);
      OpCfg o; o.type = BLASTED_GS; o.apply = rel ? 5 : 1; o.chunk = 1; o.relax = rel;
      Op* op = make_op(in, o);
      op->setApplyParams(params(rel ? 1 : 5));
      op->compute();
      double* x = rel ? dup(x0) : fresh<double>(m.N());
      if (rel) op->apply_relax(ro(rhs), x); else op->apply(ro(rhs), x);
      expect_one_sweep(S, x, rel ? x0 : Vec(m.N(), 0.0), rel ? "GS relaxation" : "GS apply");
      mc::observe(mc::hash(x, m.N() * 8));
      delete op; free(x);
    });
  }
  // lower triangular matrices: enough sweeps solve exactly (forward order), upper triangular likewise
  for (const Lay& L : LAYS) for (int n = 2; n <= (L.bs == 1 ? 3 : 2); n++) for (long k = 1; k < (1L << (n * (n - 1) / 2)); k++) for (int up = 0; up < 2; up++) for (int t = 0; t < 3; t++) for (int D = 0; D < 2; D++) {
    if (L.bs > 1 && D) continue;
    if (!R.begin(mc::fmt("tri/%s/n=%d/tri=%ld/upper=%d/%s/delay=%d", L.name, n, k, up, t == 0 ? "apply" : t == 1 ? "relax" : "sgsrelax", D))) continue;
    std::vector<std::vector<int>> cc(n); int bit = 0;
    for (int i = 0; i < n; i++) cc[i].push_back(i);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (k >> bit++ & 1) { if (up) cc[j].push_back(i); else cc[i].push_back(j); }
    for (auto& r : cc) std::sort(r.begin(), r.end());
    Mat m = make(cc, L.bs, L.row, (int)k + 101);
    Vec rhs = vec(m.N(), 8), x0 = vec(m.N(), 9), want = solve(m.dense(), rhs);
    int S = enough(std::max(lower_depth(m), upper_depth(m)), D); if (t == 2) S = (S + 1) / 2;   // two sweeps per symmetric step
    mc::Cfg c; c.threads = 2; c.preempt = L.bs > 1 ? 1 : D ? 1 : 2; c.delay = D;
    R.explore(c, [&]() {
      In in(m);
      OpCfg o; o.type = t == 2 ? BLASTED_SGS : BLASTED_GS; o.apply = t ? 1 : S; o.chunk = 1; o.relax = t > 0;
      Op* op = make_op(in, o);
      op->setApplyParams(params(t ? S : 1));
      op->compute();
      double* x = dup(x0);
      if (t) op->apply_relax(ro(rhs), x); else op->apply(ro(rhs), x);
      if (!mc::untracked_loops()) expect(x, want, "enough sweeps on a triangular matrix");
      mc::observe(mc::hash(x, m.N() * 8));
      delete op; free(x);
    });
  }
  // long and dense rows, many rows, unusual values, large teams
  for (const Lay& L : LAYS) for (auto& F : families(L.bs)) for (int t = 0; t < 3; t++) {
    if (!R.begin(mc::fmt("wide/%s/%s/%s", L.name, F.name.c_str(), t == 0 ? "apply" : t == 1 ? "relax" : "sgsrelax"))) continue;
    Mat m = make(F, L.bs, L.row, 37); Vec x0 = vec(m.N(), 35), rhs = times(vec(m.N(), 36), unit(F.vc)), fix = mul(m.dense(), x0);
    auto go = [&](int its, int chunk, const mc::Cfg& c, const Vec& b, const Vec& x1, const Vec& want, bool exact) { R.explore(c, [&]() {
      In in(m); OpCfg o; o.type = t == 2 ? BLASTED_SGS : BLASTED_GS; o.apply = t ? 1 : its; o.chunk = chunk; o.relax = t > 0;
      Op* op = make_op(in, o); op->setApplyParams(params(t ? its : 1)); op->compute();
      double* x = dup(x1); if (t) op->apply_relax(ro(b), x); else op->apply(ro(b), x);
      if (exact || !mc::untracked_loops()) expect(x, want, exact ? "wide input" : "wide triangular input");
      mc::observe(mc::hash(x, m.N() * 8)); delete op; free(x);
    }); };
    for (int its = 1; its <= 2; its++) { mc::Cfg c; c.threads = 1; go(its, its == 1 ? 1000 : 3, c, rhs, x0, gs(m, rhs, t == 0 ? Vec(m.N(), 0.0) : x0, its, t == 2), true); }
    if (F.big) continue;
    for (int T : {2, 5, 17}) { mc::Cfg c; c.threads = T; c.preempt = 0; c.delay = 0; c.deviations = T == 2 || (T == 5 && F.pat.size() < 10) ? 1 : 0;
      if (t) go(2, F.pat.size() < 10 ? 1 : 3, c, fix, x0, x0, true);
      if (F.name == "lower") go(lower_depth(m), 1, c, rhs, x0, bsolve_lower(m, rhs), false); }
  }
  // many iterations
  for (const Lay& L : LAYS) for (int its : {3, 4, 5, 8, 9, 10, 16, 17, 33}) for (int t = 0; t < 3; t++) {
    if (!R.begin(mc::fmt("many/%s/iterations=%d/%s", L.name, its, t == 0 ? "apply" : t == 1 ? "relax" : "sgsrelax"))) continue;
    Mat m = slow(L.bs, L.row, t == 2); Vec x0 = vec(m.N(), 38), rhs = vec(m.N(), 39), want = gs(m, rhs, t == 0 ? Vec(m.N(), 0.0) : x0, its, t == 2);
    mc::Cfg c; c.threads = 1; R.explore(c, [&]() {
      In in(m); OpCfg o; o.type = t == 2 ? BLASTED_SGS : BLASTED_GS; o.apply = t ? 1 : its; o.chunk = 2; o.relax = t > 0; Op* op = make_op(in, o); op->setApplyParams(params(t ? its : 1)); op->compute();
      double* x = dup(x0); if (t) op->apply_relax(ro(rhs), x); else op->apply(ro(rhs), x); expect(x, want, "many iterations"); mc::observe(mc::hash(x, m.N() * 8)); delete op; free(x); });
  }
  // work done in reverse order: every one of many sweeps counts
  for (const Lay& L : LAYS) for (int n : {5, 14, 22}) for (int kind = 0; kind < 2; kind++) for (int t = 0; t < 2; t++) for (int T : {n, (n + 2) / 3}) {
    if (!R.begin(mc::fmt("reversed/%s/n=%d/kind=%d/%s/threads=%d", L.name, n, kind, t ? "relax" : "apply", T))) continue;
    Mat m = chain(n, L.bs, L.row, kind); Vec x0 = vec(m.N(), 38), rhs = vec(m.N(), 39), want = kind == 0 ? bsolve_lower(m, rhs) : bsolve_upper(m, rhs);
    mc::Cfg c; c.threads = T; c.preempt = 0; c.delay = 0; c.policy = 1; c.deviations = n == 5 || (L.bs == 1 && n == 14) ? 1 : 0;
    R.explore(c, [&]() {
      In in(m); OpCfg o; o.type = BLASTED_GS; o.apply = t ? 1 : n; o.chunk = T == n ? 1 : 2; o.relax = t; Op* op = make_op(in, o); op->setApplyParams(params(t ? n : 1)); op->compute();
      double* x = dup(x0); if (t) op->apply_relax(ro(rhs), x); else op->apply(ro(rhs), x); if (!mc::untracked_loops()) expect(x, want, "triangular chain, work in reverse"); mc::observe(mc::hash(x, m.N() * 8)); delete op; free(x); });
  }
  return R.finish();
}
