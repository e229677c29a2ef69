// Asynchronous ILU(0) factorisation
#include "ops.hpp"
#include "wide.hpp"
using namespace ref;

static const FactInit FI[4] = {INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS, INIT_F_NONE};
static const char* FIN[4] = {"original", "zero", "sgs", "none"};

struct Prob { Mat m; bool scale; std::vector<Vec> rs, want; };
static Prob prob(const std::vector<std::vector<int>>& pat, const Lay& L, int seed, bool scale) {
  Prob p; p.m = make(pat, L.bs, L.row, seed); p.scale = scale; p.rs = rhs_set(p.m.N());
  for (auto& r : p.rs) p.want.push_back(ilu_apply(p.m, scale, r));
  return p;
}
// factorisation reached from one compute() under the controlled schedule, observed by a sequential application
static void factor(mc::Runner& R, const Prob& p, BlastedSolverType type, int sweeps, FactInit fi, int chunk, const mc::Cfg& c) {
  R.explore(c, [&]() {
    In in(p.m);
    OpCfg o; o.type = type; o.build = sweeps; o.fi = fi; o.scale = p.scale; o.chunk = chunk;
    Op* op = make_op(in, o);
    op->compute();
    bool skip = c.threads > 1 && type == BLASTED_SAPILU0 && mc::untracked_loops();
    mc::set_threads(1);
    if (!skip) apply_expect(op, p.rs, p.want, "U^-1 L^-1 r of the computed factors");
    delete op;
  });
}
// exact factors are a fixed point: recompute without initialisation, any schedule, no bound on the delay
static void fixed(mc::Runner& R, const Prob& p, int sweeps, int chunk, const mc::Cfg& c) {
  R.explore(c, [&]() {
    In in(p.m);
    OpCfg o; o.type = BLASTED_SAPILU0; o.build = sweeps; o.fi = INIT_F_NONE; o.scale = p.scale; o.chunk = chunk;
    Op* op = make_op(in, o);
    mc::set_threads(1); op->compute();
    mc::set_threads(c.threads); op->compute();
    mc::set_threads(1);
    apply_expect(op, p.rs, p.want, "factors after further asynchronous sweeps from the exact ones");
    delete op;
  });
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C01");
  const bool th = R.thorough();
  // one sweep, one thread or sequential request
  for (const Lay& L : LAYS) for (int n = 1; n <= 4; n++) {
    long N = nmasks(n), step = n == 4 ? (L.bs == 1 ? (th ? 1 : 3) : (th ? 11 : 97)) : (n == 3 && L.bs > 1 && !th ? 3 : 1);
    for (long b = 0; b < N; b += 16 * step) {
      if (!R.begin(mc::fmt("seq/%s/n=%d/masks=%ld+", L.name, n, b))) continue;
      for (long k = b; k < N && k < b + 16 * step; k += step) for (int s = 0; s < 2; s++) {
        Prob p = prob(pattern(n, k), L, (int)k, s);
        for (int f = 0; f < 4; f++) {
          mc::Cfg c; c.threads = 1;
          factor(R, p, BLASTED_SAPILU0, 1, FI[f], 1 + (int)(k % 3), c);
          if (f == k % 4) { c.threads = 2; c.preempt = 1; factor(R, p, BLASTED_SEQILU0, 1, FI[f], 2, c); factor(R, p, BLASTED_SFILU0, 1 + (int)(k & 1), FI[f], 1, [&]() { mc::Cfg q; q.threads = 2; q.preempt = 1; return q; }()); }
        }
      }
    }
  }
  auto async = [&](const Lay& L, int n, long k, const std::vector<std::vector<int>>& pat, int s, int f, int chunk, int T, int P, int D) {
    if (!R.begin(mc::fmt("async/%s/n=%d/mask=%ld/scale=%d/init=%s/chunk=%d/threads=%d/preempt=%d/delay=%d", L.name, n, k, s, FIN[f], chunk, T, P, D))) return;
    Prob p = prob(pat, L, (int)k + 3, s);
    int S = D == 0 ? lower_depth(p.m) : 3 * entry_depth(p.m) + 2;
    mc::Cfg c; c.threads = T; c.preempt = P; c.delay = D;
    factor(R, p, BLASTED_SAPILU0, S, FI[f], chunk, c);
  };
  // scalar: all patterns of 2 and 3 rows
  for (int n = 2; n <= 3; n++) for (long k = 0; k < nmasks(n); k++) for (int s = 0; s < 2; s++) for (int f = 0; f < 4; f++) {
    async(LAYS[0], n, k, pattern(n, k), s, f, 1, 2, th || n == 2 ? 3 : 2, 0);
    if (th || (k + f) % 4 == 0) async(LAYS[0], n, k, pattern(n, k), s, f, 1, 3, th || n == 2 ? 2 : 1, 0);
    if (th || (k + f + s) % 4 == 1) async(LAYS[0], n, k, pattern(n, k), s, f, 1, 2, th || n == 2 ? 2 : 1, 1);
    if (th || (k + f) % 8 == 2) async(LAYS[0], n, k, pattern(n, k), s, f, 2, 2, 2, 0);
  }
  // scalar, 4 rows
  for (long k = 4095; k >= 0; k -= th ? 17 : 171) async(LAYS[0], 4, k, pattern(4, k), k & 1, (int)(k / 2 % 4), 1, 2, th ? 2 : 1, 0);
  // blocks
  for (int l = 1; l < 4; l++) for (int n = 2; n <= 3; n++) for (long k = 0; k < nmasks(n); k++) {
    if (n == 3 && !th && k % 9 != l) continue;
    for (int s = 0; s < 2; s++) { if (n == 3 && !th && s != (k & 1)) continue;
      async(LAYS[l], n, k, pattern(n, k), s, (int)((k + l + s) % 4), 1, 2, th && n == 2 ? 2 : 1, 0);
      if (n == 2 || th) async(LAYS[l], n, k, pattern(n, k), s, (int)((k + l + s + 1) % 4), 1, 2, 1, n == 2 ? 1 : 0);
    }
  }
  // long loops: more chunks than threads, depth two
  for (const Lay& L : LAYS) for (int chunk : {1, 7, 200}) {
    int n = L.bs == 1 ? 450 : 30; if (L.bs == 1 && chunk == 1) n = 40; if (L.bs == 1 && chunk == 7) n = 80;
    async(L, n, 0, band_pattern(n, {-n / 2, n / 2}), 1, 2, chunk, 2, 0, 0);
  }
  // fixed point, unbounded delay
  // (point rows only: the block version stores inverted diagonal blocks, so its stored state is not a fixed point)
  for (const Lay& L : LAYS) if (L.bs == 1) for (int n = 2; n <= (th ? 4 : 3); n++) for (long k = 0; k < nmasks(n); k += n == 4 ? 117 : 1) {
    for (int s = 0; s < 2; s++) for (int T = 2; T <= 3; T++) {
      if (!th && T == 3 && (k + s) % 4) continue;
      if (!R.begin(mc::fmt("fixed/%s/n=%d/mask=%ld/scale=%d/threads=%d", L.name, n, k, s, T))) continue;
      Prob p = prob(pattern(n, k), L, (int)k + 5, s);
      mc::Cfg c; c.threads = T; c.preempt = L.bs == 1 ? (T == 2 ? 2 : 1) : 1; c.delay = -1;
      fixed(R, p, 2, 1, c);
    }
  }
  // long and dense rows, many rows, unusual values, large teams
  for (const Lay& L : LAYS) for (auto& F : families(L.bs)) for (int s = 0; s < 2; s++) {
    if ((s && no_scaling(F)) || !R.begin(mc::fmt("wide/%s/%s/scale=%d", L.name, F.name.c_str(), s))) continue;
    Prob p; p.m = make(F, L.bs, L.row, s + 7); p.scale = s; p.rs = {times(vec(p.m.N(), 5), unit(F.vc))}; p.want = {ilu_apply(p.m, s, p.rs[0])};
    for (int f = 0; f < 4; f++) {
      mc::Cfg c; c.threads = 1; factor(R, p, BLASTED_SAPILU0, 1 + (f & 1), FI[f], f == 2 ? 1000 : 5, c); if (f == 0) { factor(R, p, BLASTED_SEQILU0, 1, FI[0], 3, c); factor(R, p, BLASTED_SFILU0, 1, FI[0], 3, c); }
      if (F.big) continue;
      for (int T : {2, 5, 17}) { mc::Cfg c; c.threads = T; c.preempt = 0; c.delay = 0; c.deviations = T == 2 || (T == 5 && F.pat.size() < 10) ? 1 : 0; if (f % 2 == T % 2 || F.pat.size() < 10) factor(R, p, BLASTED_SAPILU0, lower_depth(p.m), FI[f], F.pat.size() < 10 ? 1 : 3, c); }
    }
  }
  // work done in reverse order: every one of many sweeps counts
  for (const Lay& L : LAYS) for (int n : {5, 14, 22}) for (int s = 0; s < 2; s++) for (int T : {n, (n + 2) / 3}) {
    if (!R.begin(mc::fmt("reversed/%s/n=%d/scale=%d/threads=%d", L.name, n, s, T))) continue;
    Prob p; p.m = chain(n, L.bs, L.row, 2); p.scale = s; p.rs = {vec(p.m.N(), 5)}; p.want = {ilu_apply(p.m, s, p.rs[0])};
    for (int f = 0; f < 4; f++) { mc::Cfg c; c.threads = T; c.preempt = 0; c.delay = 0; c.policy = 1; c.deviations = n == 5 || (L.bs == 1 && n == 14) ? 1 : 0; factor(R, p, BLASTED_SAPILU0, lower_depth(p.m), FI[f], T == n ? 1 : 2, c); }
  }
  return R.finish();
}
