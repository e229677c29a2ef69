// Footprint: reads inside the given arrays, writes only its own data and the whole output, frees everything, no crosstalk
#include "reord.hpp"
#include "wide.hpp"
using namespace ref;
static SolveParams<double> params(int its) { SolveParams<double> p; p.rtol = 1e-30; p.atol = 1e-30; p.dtol = 1e30; p.ctol = its == 2; p.maxits = its; return p; }
struct Kind { const char* name; BlastedSolverType t; bool symm, relax, scalar_only, reord = false; };
static const Kind KINDS[] = {
  {"jacobi", BLASTED_JACOBI, false, true, false}, {"gs", BLASTED_GS, false, true, false}, {"sgs", BLASTED_SGS, false, true, false},
  {"ilu0", BLASTED_ILU0, false, false, false}, {"seqilu0", BLASTED_SEQILU0, false, false, false}, {"sfilu0", BLASTED_SFILU0, false, false, false}, {"sapilu0", BLASTED_SAPILU0, false, false, false},
  {"csc-bgs", BLASTED_CSC_BGS, false, false, true}, {"level-sgs", BLASTED_LEVEL_SGS, true, true, false}, {"level-ilu", BLASTED_ASYNC_LEVEL_ILU0, true, false, false}, {"none", BLASTED_NO_PREC, false, false, false}, {"reordered-ilu0", BLASTED_ILU0, false, false, true, true},
};
static OpCfg cfg_of(const Kind& K, int v) {
  static const FactInit FI[4] = {INIT_F_ORIGINAL, INIT_F_ZERO, INIT_F_SGS, INIT_F_NONE};
  static const ApplyInit AI[2] = {INIT_A_ZERO, INIT_A_JACOBI};
  OpCfg o; o.type = K.t; o.fi = FI[v % 4]; o.ai = AI[v / 4 % 2]; o.scale = v / 8 % 2; o.info = v / 16 % 2; o.build = 1 + v % 2; o.apply = 1 + v % 3 / 2; o.chunk = 1 + v % 3; o.relax = K.relax;
  return o;
}
static Op* make_kind(const In& in, const Kind& K, int v) { OpCfg o = cfg_of(K, v); if (!K.reord) return make_op(in, o); o.tf = v / 16 % 2; o.ta = v / 4 % 2; return new ReordOp(in, o, v % 3); }
// one operator's life under T threads; every access is monitored, the matrix and inputs are write-protected
static void life(mc::Runner& R, const Kind& K, const Mat& m, int variant, const mc::Cfg& c, double u = 1) {
  Vec rhs = times(vec(m.N(), 31), u), x0 = vec(m.N(), 32);
  R.explore(c, [&]() {
    In in(m);
    double* r = dup(rhs); mc::mark_readonly(r, m.N() * 8);
    long before = mc::live_blocks();
    Op* op = make_kind(in, K, variant);
    op->setApplyParams(params(1 + variant % 2));
    if (op->dim() != m.N()) mc::fail(mc::fmt("dim() is %d for a matrix of %d rows", (int)op->dim(), m.N()));
    op->compute();
    op->compute();
    double* z = fresh<double>(m.N());
    op->apply(r, z);
    bool skipval = c.threads > 1;     // with several threads and few sweeps the values are only required to be finite
    for (int i = 0; i < m.N(); i++) { uint64_t w; memcpy(&w, &z[i], 8); if (w == ~0ull || (!skipval && !std::isfinite(z[i]))) mc::fail(mc::fmt("output entry %d was not written", i)); }
    if (K.relax) { memcpy(z, x0.data(), m.N() * 8); op->apply_relax(r, z); }
    mc::observe(mc::hash(z, m.N() * 8));
    free(z);
    delete op;
    if (mc::live_blocks() != before) mc::fail(mc::fmt("%ld memory blocks were not released", mc::live_blocks() - before));
    in.unchanged();
  });
}
// two operators on one matrix: every interleaving of their operations
static void pair(mc::Runner& R, const Kind& K1, const Kind& K2, const Mat& m, int depth) {
  Vec rhs = vec(m.N(), 33), x0 = vec(m.N(), 34);
  // behaviour alone
  auto alone = [&](const Kind& K) {
    std::vector<Vec> out(2, Vec(m.N(), 0.0));
    mc::Cfg c; c.threads = 1;
    R.explore(c, [&]() {
      In in(m);
      Op* op = make_kind(in, K, 0); op->setApplyParams(params(1)); op->compute();
      double* z = fresh<double>(m.N()); op->apply(ro(rhs), z); for (int i = 0; i < m.N(); i++) out[0][i] = z[i];
      if (K.relax) { memcpy(z, x0.data(), m.N() * 8); op->apply_relax(ro(rhs), z); for (int i = 0; i < m.N(); i++) out[1][i] = z[i]; }
      free(z); delete op;
    });
    return out;
  };
  std::vector<Vec> w[2] = {alone(K1), alone(K2)};
  mc::Cfg c; c.threads = 1; c.check_leaks = true;
  R.explore(c, [&]() {
    In in(m);
    const Kind* K[2] = {&K1, &K2}; Op* op[2]; bool alive[2] = {true, true};
    double* r = dup(rhs); mc::mark_readonly(r, m.N() * 8);
    for (int k = 0; k < 2; k++) { op[k] = make_kind(in, *K[k], 0); op[k]->setApplyParams(params(1)); op[k]->compute(); }
    for (int d = 0; d < depth; d++) {
      int q = mc::choose(8), k = q & 1; mc::trans_add(1);
      if (!alive[k]) continue;
      double* z = fresh<double>(m.N());
      if (q / 2 == 0) op[k]->compute();
      else if (q / 2 == 1) { op[k]->apply(r, z); expect(z, w[k][0], "apply next to another operator"); }
      else if (q / 2 == 2) { if (K[k]->relax) { memcpy(z, x0.data(), m.N() * 8); op[k]->apply_relax(r, z); expect(z, w[k][1], "relaxation next to another operator"); } }
      else { delete op[k]; alive[k] = false; }
      free(z);
    }
    for (int k = 0; k < 2; k++) if (alive[k]) { double* z = fresh<double>(m.N()); op[k]->apply(r, z); expect(z, w[k][0], "apply next to another operator"); free(z); delete op[k]; }
    in.unchanged(); in.free_all(); free(r);
  });
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C09");
  const bool th = R.thorough();
  for (const Lay& L : LAYS) for (const Kind& K : KINDS) {
    if (K.scalar_only && L.bs > 1) continue;
    for (int n = 1; n <= 4; n++) {
      long N = K.symm ? 1L << (n * (n - 1) / 2) : nmasks(n), step = n == 4 ? (K.symm ? 1 : L.bs == 1 ? (th ? 5 : 61) : (th ? 61 : 301)) : n == 3 && L.bs > 1 && !K.symm && !th ? 3 : 1;
      if (!R.begin(mc::fmt("life/%s/%s/n=%d", L.name, K.name, n))) continue;
      for (long k = 0; k < N; k += step) {
        Mat m = make(K.symm ? symm_pattern(n, k) : pattern(n, k), L.bs, L.row, (int)k + 211);
        for (int v = (int)(k % 5); v < 32; v += n < 3 ? 1 : 5) { mc::Cfg c; c.threads = 1; life(R, K, m, v, c); }
        for (int T = 2; T <= 5; T++) { if (n > 2 && T != 2 + k % 4) continue; mc::Cfg c; c.threads = T; c.schedules = false; c.preempt = 0; life(R, K, m, (int)(k * 7 + T) % 32, c); }
      }
    }
    for (int v : {0, 13, 22}) {
      if (!R.begin(mc::fmt("large/%s/%s/variant=%d", L.name, K.name, v))) continue;
      int n = L.bs == 1 ? 130 : 20; mc::Cfg c; c.schedules = false; c.preempt = 0;
      for (int T : {1, 3, 8}) { c.threads = T; life(R, K, make(band_pattern(n, {-9, -1, 1, 9}), L.bs, L.row, 5), v, c); }
    }
    for (auto& F : families(L.bs, K.symm)) {
      if (!R.begin(mc::fmt("wide/%s/%s/%s", L.name, K.name, F.name.c_str()))) continue;
      Mat m = make(no_scaling(F) ? Fam{F.name, F.pat, VC_PLAIN, F.big} : F, L.bs, L.row, 5); mc::Cfg c; c.schedules = false; c.preempt = 0;
      for (int T : {1, 5, 17}) { if (F.big && T == 5) continue; c.threads = T; life(R, K, m, 5 + T, c, unit(F.vc)); }
    }
    for (const Kind& K2 : KINDS) {
      if (K2.scalar_only && L.bs > 1) continue;
      if (!R.begin(mc::fmt("pair/%s/%s/%s", L.name, K.name, K2.name))) continue;
      pair(R, K, K2, make(symm_pattern(3, 5), L.bs, L.row, 9), L.bs == 1 ? (th ? 5 : 4) : (th ? 4 : 3));
    }
  }
  return R.finish();
}
