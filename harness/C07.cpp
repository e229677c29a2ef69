// Level-scheduled operators are exact on every schedule
#include "ops.hpp"
#include "wide.hpp"
using namespace ref;
static SolveParams<double> params(int its) { SolveParams<double> p; p.rtol = 1e-30; p.atol = 1e-30; p.dtol = 1e30; p.ctol = false; p.maxits = its; return p; }
static const FactInit FI[3] = {INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS};

// what: 0 SGS apply, 1 SGS relaxation, 2 ILU apply, 3 ILU apply with scaling, 4 ILU factorised by T threads
static void run(mc::Runner& R, const Mat& m, int what, const mc::Cfg& c, int its = 2, double u = 1) {
  Vec rhs = times(vec(m.N(), 17), u), x0 = vec(m.N(), 18);
  Vec want = what == 0 ? sgs_apply(m, rhs) : what == 1 ? gs(m, rhs, x0, its, true) : ilu_apply(m, what == 3, rhs);
  int T = c.threads;
  R.explore(c, [&]() {
    In in(m);
    OpCfg o; o.type = what < 2 ? BLASTED_LEVEL_SGS : BLASTED_ASYNC_LEVEL_ILU0; o.scale = what == 3; o.relax = what == 1;
    o.build = what == 4 ? enough(entry_depth(m), c.delay < 0 ? 0 : c.delay) : 1; o.chunk = 1; o.fi = FI[m.nnz() % 3];
    Op* op = make_op(in, o);
    op->setApplyParams(params(its));
    if (what != 4) mc::set_threads(1);
    op->compute();
    bool skip = what == 4 && mc::untracked_loops();
    mc::set_threads(what == 4 ? 1 : T);
    for (int rep = 0; rep < (c.threads == 1 ? 2 : 1); rep++) {
      double* x = what == 1 ? dup(x0) : fresh<double>(m.N());
      if (what == 1) { if (!op->relaxationAvailable()) mc::fail("level SGS relaxation reported as unavailable"); op->apply_relax(ro(rhs), x); }
      else op->apply(ro(rhs), x);
      if (!skip) expect(x, want, what == 0 ? "level SGS apply" : what == 1 ? "level SGS relaxation" : "level ILU(0) apply");
      mc::observe(mc::hash(x, m.N() * 8));
      free(x);
    }
    delete op;
  });
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C07");
  const bool th = R.thorough();
  for (const Lay& L : LAYS) {
    for (int n = 1; n <= (L.bs == 1 ? 5 : 4); n++) {
      long N = 1L << (n * (n - 1) / 2);
      for (long b = 0; b < N; b += 16) {
        if (!R.begin(mc::fmt("seq/%s/n=%d/masks=%ld+", L.name, n, b))) continue;
        for (long k = b; k < N && k < b + 16; k++) for (int w = 0; w < 4; w++) { mc::Cfg c; c.threads = 1; run(R, make(symm_pattern(n, k), L.bs, L.row, (int)k + 121), w, c, 1 + (int)(k % 3)); }
      }
    }
    for (int n = 2; n <= (L.bs == 1 ? 5 : 4); n++) {
      long N = 1L << (n * (n - 1) / 2), step = L.bs == 1 ? (n == 5 ? (th ? 1 : 13) : 1) : (n == 4 ? (th ? 3 : 13) : 1);
      for (long k = 0; k < N; k += step) for (int w = 0; w < 4; w++) for (int T = 2; T <= 3; T++) {
        if (!th && (k / step + w + T) % (n <= 3 && L.bs == 1 ? 1 : 2)) continue;
        if (!R.begin(mc::fmt("%s/n=%d/mask=%ld/what=%d/threads=%d", L.name, n, k, w, T))) continue;
        mc::Cfg c; c.threads = T; c.preempt = T == 2 ? (L.bs == 1 ? (th ? 3 : 2) : (th ? 2 : 1)) : 1;
        run(R, make(symm_pattern(n, k), L.bs, L.row, (int)k + 131), w, c, 1);
      }
    }
    // asynchronous factorisation inside the level-scheduled operator
    for (int n = 2; n <= (L.bs == 1 ? 4 : 3); n++) for (long k = 0; k < (1L << (n * (n - 1) / 2)); k++) for (int D = 0; D < 2; D++) {
      if (D && (n > 2 || L.bs > 1)) continue;
      if (!R.begin(mc::fmt("fact/%s/n=%d/mask=%ld/delay=%d", L.name, n, k, D))) continue;
      mc::Cfg c; c.threads = 2; c.preempt = 1; c.delay = D;
      run(R, make(symm_pattern(n, k), L.bs, L.row, (int)k + 141), 4, c);
    }
    // natural grids: wide levels
    for (int w = 0; w < 4; w++) for (int T : {2, 3, 5}) {
      int n = L.bs == 1 ? 24 : 8; if (!R.begin(mc::fmt("grid/%s/what=%d/threads=%d", L.name, w, T))) continue;
      mc::Cfg c; c.threads = T; c.preempt = L.bs == 1 && T == 2 ? 1 : 0;
      run(R, make(band_pattern(n, {-n / 2, n / 2}), L.bs, L.row, 7), w, c, 2);
    }
  }
  // long and dense rows, many rows, unusual values, large teams
  for (const Lay& L : LAYS) for (auto& F : families(L.bs, true)) for (int w = 0; w < 4; w++) {
    if ((w == 3 && no_scaling(F)) || !R.begin(mc::fmt("wide/%s/%s/what=%d", L.name, F.name.c_str(), w))) continue;
    Mat m = make(F, L.bs, L.row, 47);
    mc::Cfg c; c.threads = 1; run(R, m, w, c, 2, unit(F.vc)); if (F.big) continue;
    for (int T : {2, 5, 17}) { c.threads = T; c.preempt = 0; c.deviations = T == 2 || (T == 5 && F.pat.size() < 10) ? 1 : 0; run(R, m, w, c, 2, unit(F.vc)); }
  }
  // several wide levels
  for (const Lay& L : LAYS) for (int w = 0; w < 4; w++) for (int lv = 2; lv <= 4; lv++) {
    if (!R.begin(mc::fmt("levels/%s/what=%d/levels=%d", L.name, w, lv))) continue;
    for (int width : {L.bs == 1 ? 70 : 33, 13}) { Mat m = make(band_pattern(lv * width - 1, {-width, width}), L.bs, L.row, 9);
      for (int T : {1, 2, 3, 5, 8, 17}) for (int pol = 0; pol < 2; pol++) { mc::Cfg c; c.threads = T; c.preempt = 0; c.deviations = T == 2 && width == 13 && L.bs == 1 ? 1 : 0; c.policy = pol; if (pol && T == 1) continue; run(R, m, w, c, 2); } }
  }
  // many relaxation iterations
  for (const Lay& L : LAYS) for (int its : {3, 4, 5, 8, 9, 10, 16, 17, 33}) {
    if (!R.begin(mc::fmt("many/%s/iterations=%d", L.name, its))) continue;
    for (int n : {6, 20}) { Mat m = slow(L.bs, L.row, true, n); for (int T : {1, 2, 5}) { mc::Cfg c; c.threads = T; c.preempt = 0; c.deviations = 0; run(R, m, 1, c, its); } }
  }
  return R.finish();
}
