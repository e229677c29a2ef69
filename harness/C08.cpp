// Operation histories: results depend only on the current matrix and input
#include "reord.hpp"
#include "wide.hpp"
#include <set>
using namespace ref;
static SolveParams<double> params(int its, bool ctol = false) { SolveParams<double> p; p.rtol = 1e-30; p.atol = 1e-30; p.dtol = 1e30; p.ctol = ctol; p.maxits = its; return p; }

struct Kind { const char* name; BlastedSolverType t; bool scale; ApplyInit ai; FactInit fi; bool symm, relax; bool scalar_only; bool info; bool reord = false; };
static const Kind KINDS[] = {
  {"jacobi", BLASTED_JACOBI, false, INIT_A_ZERO, INIT_F_ORIGINAL, false, true, false, false},
  {"gs", BLASTED_GS, false, INIT_A_ZERO, INIT_F_ORIGINAL, false, true, false, false},
  {"sgs-zero", BLASTED_SGS, false, INIT_A_ZERO, INIT_F_ORIGINAL, false, true, false, false},
  {"sgs-jacobi", BLASTED_SGS, false, INIT_A_JACOBI, INIT_F_ORIGINAL, false, true, false, false},
  {"sgs-none", BLASTED_SGS, false, INIT_A_NONE, INIT_F_ORIGINAL, false, true, false, false},
  {"ilu0-orig", BLASTED_ILU0, false, INIT_A_ZERO, INIT_F_ORIGINAL, false, false, false, false},
  {"ilu0-zero-scaled", BLASTED_ILU0, true, INIT_A_JACOBI, INIT_F_ZERO, false, false, false, true},
  {"ilu0-sgs-scaled", BLASTED_ILU0, true, INIT_A_ZERO, INIT_F_SGS, false, false, false, false},
  {"ilu0-none", BLASTED_SEQILU0, false, INIT_A_JACOBI, INIT_F_NONE, false, false, false, true},
  {"csc-bgs", BLASTED_CSC_BGS, false, INIT_A_ZERO, INIT_F_ORIGINAL, false, false, true, false},
  {"level-sgs", BLASTED_LEVEL_SGS, false, INIT_A_ZERO, INIT_F_ORIGINAL, true, true, false, false},
  {"level-ilu", BLASTED_ASYNC_LEVEL_ILU0, true, INIT_A_ZERO, INIT_F_SGS, true, false, false, true},
  {"none", BLASTED_NO_PREC, false, INIT_A_ZERO, INIT_F_ORIGINAL, false, false, false, false},
  {"reordered-ilu0", BLASTED_ILU0, true, INIT_A_JACOBI, INIT_F_SGS, false, false, true, false, true},
};
static Op* make_kind(const In& in, const Kind& K, const OpCfg& o) { if (!K.reord) return make_op(in, o); OpCfg q = o; q.tf = q.ta = true; return new ReordOp(in, q); }
static Vec want_apply(const Kind& K, const Mat& m, const Vec& r) {
  if (K.reord) return reord_apply(m, r);
  switch (K.t) {
    case BLASTED_JACOBI: return jacobi_apply(m, r);
    case BLASTED_GS: return gs(m, r, Vec(m.N(), 0.0), 2, false);
    case BLASTED_SGS: case BLASTED_LEVEL_SGS: return sgs_apply(m, r);
    case BLASTED_CSC_BGS: return bsolve_upper(m, r);
    case BLASTED_NO_PREC: return r;
    default: return ilu_apply(m, K.scale, r);
  }
}
static Vec want_relax(const Kind& K, const Mat& m, const Vec& b, const Vec& x0, int its) {
  if (K.t == BLASTED_JACOBI) { Vec x = x0; for (int k = 0; k < its; k++) { Vec y = x; for (int i = 0; i < m.n; i++) { Vec q = x; gs_row(m, i, b, q); for (int a = 0; a < m.bs; a++) y[i*m.bs+a] = q[i*m.bs+a]; } x = y; } return x; }
  return gs(m, b, x0, its, K.t != BLASTED_GS);
}
static const Vec& memo(std::map<std::string, Vec>& M, const std::string& k, const std::function<Vec()>& f) { auto it = M.find(k); if (it == M.end()) it = M.emplace(k, f()).first; return it->second; }

static void history(mc::Runner& R, const Kind& K, const Mat& m0, int depth, const mc::Cfg& c, bool fixedhist = false) {
  std::vector<Mat> vals(3, m0);
  for (int v = 1; v < 3; v++) vals[v] = make([&]() { std::vector<std::vector<int>> p(m0.n); for (int i = 0; i < m0.n; i++) for (int q = m0.rp[i]; q < m0.rp[i+1]; q++) p[i].push_back(m0.ci[q]); return p; }(), m0.bs, m0.rowmajor, 300 + v, v == 2 ? 1e3 : 1.0);
  std::vector<Vec> rs = {vec(m0.N(), 21), vec(m0.N(), 22)}; Vec x0 = vec(m0.N(), 23);
  std::vector<std::vector<Vec>> wa(3), wr(3);
  for (int v = 0; v < 3; v++) { for (auto& r : rs) wa[v].push_back(want_apply(K, vals[v], r)); if (K.relax) for (int its = 1; its <= 2; its++) wr[v].push_back(want_relax(K, vals[v], rs[0], x0, its)); }
  R.explore(c, [&]() {
    In in(m0, false);
    OpCfg o; o.type = K.t; o.scale = K.scale; o.ai = K.ai; o.fi = K.fi; o.apply = K.t == BLASTED_GS ? 2 : 1; o.build = 1; o.info = K.info && c.threads == 1;
    if (c.threads > 1) { o.apply = K.t == BLASTED_GS ? 2 : 2; o.build = entry_depth(m0); }
    Op* op = make_kind(in, K, o);
    int its = 1; op->setApplyParams(params(its));
    int cur = 0, comp = -1;
    Vec r0 = rs[0], r1 = rs[1];
    double* rb[2] = {dup(r0), dup(r1)};
    auto compute = [&]() { op->compute(); comp = cur; };
    auto apply = [&](int k) {
      double* z = fresh<double>(m0.N()); if (K.ai == INIT_A_NONE) for (int i = 0; i < m0.N(); i++) z[i] = i;
      op->apply(rb[k], z);
      if (comp == cur) expect(z, wa[cur][k], "apply after this history");
      for (int i = 0; i < m0.N(); i++) if (rb[k][i] != rs[k][i]) mc::fail("the input vector was modified");
      mc::observe(mc::hash(z, m0.N() * 8, cur * 2 + k)); free(z);
    };
    if (fixedhist) mc::set_threads(1);
    compute();
    if (fixedhist) { apply(0); mc::set_threads(c.threads); memcpy(in.v, vals[1].v.data(), vals[1].v.size() * 8); cur = 1; compute(); apply(1); }
    else {
      int nops = K.relax ? 9 : 6;
      for (int d = 0; d < depth; d++) {
        int q = mc::choose(nops); mc::trans_add(1);
        if (q < 3) { if (d == depth - 1) continue; memcpy(in.v, vals[q].v.data(), vals[q].v.size() * 8); cur = q; }
        else if (q == 3) compute();
        else if (q == 4) apply(0);
        else if (q == 5) apply(1);
        else if (q == 6) { its = 3 - its; op->setApplyParams(params(its, its == 2)); }
        else if (q == 7) { double* x = dup(x0); op->apply_relax(rb[0], x); if (comp == cur) expect(x, wr[cur][its - 1], "relaxation after this history"); free(x); }
        else { double* x = fresh<double>(m0.N()); for (int i = 0; i < m0.N(); i++) x[i] = NAN; op->apply_relax(rb[1], x); free(x); }   // poisoned iterate must leave no trace
      }
      compute(); apply(0); apply(1);
    }
    int now = cur;
    for (size_t i = 0; i < vals[now].v.size(); i++) if (in.v[i] != vals[now].v[i]) mc::fail("the matrix was modified");
    delete op; free(rb[0]); free(rb[1]); in.free_all();
  });
}
/* One sweep by several threads is not exact, but the set of results the schedules can give is determined by
 * the current matrix and input: whatever came before, the operator gives no result that a fresh one cannot give. */
static void outcomes(mc::Runner& R, const Kind& K, const Mat& m0, int T, int P, int hist, bool stale_compute, int sweeps = 0) {
  static uint64_t seen[1 << 20]; static long nseen; static bool collecting; nseen = 0;
  std::vector<Mat> vals(2, m0); vals[1] = make([&]() { std::vector<std::vector<int>> p(m0.n); for (int i = 0; i < m0.n; i++) for (int q = m0.rp[i]; q < m0.rp[i+1]; q++) p[i].push_back(m0.ci[q]); return p; }(), m0.bs, m0.rowmajor, 301);
  Vec r0 = vec(m0.N(), 24), r1 = vec(m0.N(), 25), x0 = vec(m0.N(), 26);
  for (int pass = 0; pass < 2; pass++) {
    collecting = pass == 0;
    mc::Cfg c; c.threads = T; c.preempt = P; if (sweeps) { c.policy = 1; c.deviations = P; c.preempt = 0; c.delay = 0; }
    if (pass == 1) std::sort(seen, seen + nseen);
    mc::Stats st = R.explore(c, [&]() {
      In in(m0, false); mc::set_threads(1);
      OpCfg o; o.type = K.t; o.scale = K.scale; o.ai = K.ai; o.fi = K.fi; o.apply = sweeps ? sweeps : 1; o.build = sweeps && stale_compute ? sweeps : stale_compute ? 1 : 2; o.chunk = 1;
      Op* op = make_kind(in, K, o); op->setApplyParams(params(1));
      double *a = dup(r0), *b = dup(r1), *z = fresh<double>(m0.N());
      if (!collecting) {       // the history, by one thread
        if (stale_compute) { memcpy(in.v, vals[1].v.data(), vals[1].v.size() * 8); op->compute(); op->apply(b, z); memcpy(in.v, m0.v.data(), m0.v.size() * 8); }
        else op->compute();
      } else if (!stale_compute) op->compute();
      if (stale_compute) { mc::set_threads(T); op->compute(); mc::set_threads(1); }
      if (!collecting && !stale_compute) {
        for (int k = 0; k < hist; k++) op->apply(b, z);
        if (K.relax) { double* x = dup(x0); op->apply_relax(b, x); free(x); }
      }
      for (int i = 0; i < m0.N(); i++) z[i] = collecting ? -3 : 7;
      if (!stale_compute) mc::set_threads(T);
      op->apply(a, z);
      uint64_t h = mc::hash(z, m0.N() * 8);
      if (collecting) { mc::observe(h); bool dupl = false; for (long i = nseen - 1; i >= 0 && i > nseen - 64; i--) if (seen[i] == h) dupl = true; if (!dupl) { if (nseen == 1 << 20) mc::fail("too many outcomes"); seen[nseen++] = h; } }
      else if (!mc::discovering() && !std::binary_search(seen, seen + nseen, h)) mc::fail(stale_compute ? "computing again gave a result that no schedule gives on a fresh operator" : "an earlier application or relaxation changed what apply returns: no schedule gives this on a fresh operator");
      free(a); free(b); free(z); delete op;
    });
    if (st.failed) return;
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C08");
  const bool th = R.thorough();
  for (const Lay& L : LAYS) for (const Kind& K : KINDS) {
    if (K.scalar_only && L.bs > 1) continue;
    int n = L.bs == 1 ? 4 : 3;
    int depth = L.bs == 1 ? (th ? 6 : 5) : (th ? 5 : 4);
    std::vector<long> masks = K.symm ? (n == 4 ? std::vector<long>{45, 63} : std::vector<long>{5, 7}) : (n == 4 ? std::vector<long>{0xfff, 0xa5c, 0x0f0} : std::vector<long>{63, 37});
    for (long k : masks) {
      if (R.begin(mc::fmt("hist/%s/%s/mask=%ld", L.name, K.name, k))) {
        mc::Cfg c; c.threads = 1; c.check_leaks = true; c.max_execs = 20000000;
        history(R, K, make(K.symm ? symm_pattern(n, k) : pattern(n, k), L.bs, L.row, 201), depth, c);
      }
      if (K.t == BLASTED_GS || K.t == BLASTED_CSC_BGS) continue;     // not exact with several threads
      if (R.begin(mc::fmt("threads/%s/%s/mask=%ld", L.name, K.name, k))) {
        int q = 2; mc::Cfg c; c.threads = 2; c.preempt = L.bs == 1 && !K.symm ? 1 : 0; c.delay = 0; c.check_leaks = true;
        history(R, K, make(K.symm ? symm_pattern(q, 1) : pattern(q, 1 + k % 3), L.bs, L.row, 202), 0, c, true);
      }
    }
  }
  for (const Lay& L : LAYS) for (const Kind& K : KINDS) {
    if ((K.scalar_only && L.bs > 1) || K.ai == INIT_A_NONE || K.fi == INIT_F_NONE) continue;
    std::vector<Mat> ms; for (int n = 2; n <= (th ? 4 : 3); n++) { if (n == 4 && L.bs > 1) continue; for (long k : K.symm ? (n == 2 ? std::vector<long>{1} : n == 3 ? std::vector<long>{5, 7} : std::vector<long>{45}) : (n == 2 ? std::vector<long>{3, 2} : n == 3 ? std::vector<long>{63, 37, 22} : std::vector<long>{0xfff})) ms.push_back(make(K.symm ? symm_pattern(n, k) : pattern(n, k), L.bs, L.row, 203)); }
    for (size_t q = 0; q < ms.size(); q++) for (int T = 2; T <= 3; T++) for (int sc = 0; sc < 2; sc++) {
      if (T == 3 && ms[q].n < 3) continue;
      if (!th && T == 3 && L.bs > 1 && sc) continue;
      if (!R.begin(mc::fmt("outcomes/%s/%s/matrix=%zu/threads=%d/%s", L.name, K.name, q, T, sc ? "compute" : "apply"))) continue;
      int P = L.bs == 1 ? (th ? 3 : 2) : (th ? 2 : 1);
      if (L.bs > 1 && ms[q].n == 3 && !th) P = 1;
      outcomes(R, K, ms[q], T, P, 1 + (int)(q % 2), sc);
    }
  }
  // more sweeps than one, still too few: chains of rows, work done in reverse order
  for (const Lay& L : LAYS) for (const Kind& K : KINDS) {
    if ((K.scalar_only && L.bs > 1) || K.ai == INIT_A_NONE || K.fi == INIT_F_NONE) continue;
    for (int n : {5, 12}) for (int S : {2, 3, 4, 7, 10}) for (int sc = 0; sc < 2; sc++) for (int dev = 0; dev < (n == 5 ? 2 : 1); dev++) {
      if (S >= n || !R.begin(mc::fmt("sweeps/%s/%s/n=%d/sweeps=%d/deviations=%d/%s", L.name, K.name, n, S, dev, sc ? "compute" : "apply"))) continue;
      outcomes(R, K, chain(n, L.bs, L.row, 2), n, dev, 1 + S % 3, sc, S);
    }
  }
  return R.finish();
}
