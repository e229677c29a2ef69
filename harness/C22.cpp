// The factory: names, supported combinations, and every option reaching the operator
#include "fac.hpp"
#include <set>
using namespace ref;
static const char* NAMES[] = {"jacobi","gs","sgs","ilu0","seqilu0","sfilu0","sapilu0","cscbgs","level_sgs","async_level_ilu0","none"};
static const BlastedSolverType TYPES[] = {BLASTED_JACOBI,BLASTED_GS,BLASTED_SGS,BLASTED_ILU0,BLASTED_SEQILU0,BLASTED_SFILU0,BLASTED_SAPILU0,BLASTED_CSC_BGS,BLASTED_LEVEL_SGS,BLASTED_ASYNC_LEVEL_ILU0,BLASTED_NO_PREC};
enum { NT = 11 };
static bool is_ilu(BlastedSolverType t) { return t == BLASTED_ILU0 || t == BLASTED_SEQILU0 || t == BLASTED_SFILU0 || t == BLASTED_SAPILU0 || t == BLASTED_ASYNC_LEVEL_ILU0; }
static bool tfac(BlastedSolverType t) { return t == BLASTED_ILU0 || t == BLASTED_SAPILU0 || t == BLASTED_ASYNC_LEVEL_ILU0; }
static bool tapp(BlastedSolverType t) { return t == BLASTED_ILU0 || t == BLASTED_SFILU0; }
static bool relaxes(BlastedSolverType t) { return t == BLASTED_JACOBI || t == BLASTED_GS || t == BLASTED_SGS || t == BLASTED_LEVEL_SGS; }
template <class F> static void refused(F f, const std::string& what) {
  try { f(); } catch (const std::invalid_argument&) { return; } catch (const std::exception& e) { mc::fail(what + " is refused with something other than an invalid-argument error: " + e.what()); }
  mc::fail(what + " is accepted");
}
static Vec run_apply(const Op* op, const Vec& r) { double* rr = dup(r); double* z = fresh<double>(r.size()); op->apply(rr, z); Vec w(z, z + r.size()); free(rr); free(z); return w; }
static void same(const Vec& g, const Vec& w, const std::string& what, double tol = 1e-9) { for (size_t i = 0; i < w.size(); i++) if (!close(g[i], w[i], tol)) mc::fail(mc::fmt("%s: entry %zu is %.12g, should be %.12g", what.c_str(), i, g[i], w[i])); }
static SolveParams<double> params(int its) { SolveParams<double> p; p.rtol = 1e-30; p.atol = 1e-30; p.dtol = 1e30; p.ctol = false; p.maxits = its; return p; }

static void names(mc::Runner& R) {
  if (!R.begin("names")) return;
  std::vector<std::string> all;
  for (auto n : NAMES) { std::string s = n; all.push_back(s); for (size_t k = 0; k < s.size(); k++) { all.push_back(s.substr(0, k)); all.push_back(s.substr(k)); std::string u = s; u[k] = (char)toupper(u[k]); all.push_back(u); u = s; u.erase(k, 1); all.push_back(u); u = s; u[k] = '0'; all.push_back(u); } all.push_back(s + " "); all.push_back(" " + s); all.push_back(s + "0"); for (auto n2 : NAMES) all.push_back(s + n2); }
  for (auto s : {"ilu", "levelsgs", "async_level_ilu", "external", "jacobi\n", "ssor", "sai", "bgs", "csc_bgs"}) all.push_back(s);
  mc::Cfg c; c.threads = 1;
  R.explore(c, [&]() {
    for (auto& s : all) {
      SRFactory<double,int> F; const FactoryBase<double,int>& B = F; int want = -1; for (int k = 0; k < NT; k++) if (s == NAMES[k]) want = k;
      mc::trans_add(1);
      if (want >= 0) { if (B.solverTypeFromString(s) != TYPES[want]) mc::fail("name " + s + " gives the wrong solver type"); }
      else refused([&]() { B.solverTypeFromString(s); }, "solver name '" + s + "'");
      static const char* FN[] = {"init_zero","init_original","init_sgs","init_none"}; static const FactInit FV[] = {INIT_F_ZERO, INIT_F_ORIGINAL, INIT_F_SGS, INIT_F_NONE};
      static const char* AN[] = {"init_zero","init_jacobi","init_none"}; static const ApplyInit AV[] = {INIT_A_ZERO, INIT_A_JACOBI, INIT_A_NONE};
      for (int k = 0; k < 4; k++) if (getFactInitFromString(FN[k]) != FV[k]) mc::fail(std::string("factor initialisation ") + FN[k]);
      for (int k = 0; k < 3; k++) if (getApplyInitFromString(AN[k]) != AV[k]) mc::fail(std::string("apply initialisation ") + AN[k]);
      refused([&]() { getFactInitFromString(s); }, "factor initialisation '" + s + "'"); refused([&]() { getApplyInitFromString(s); }, "apply initialisation '" + s + "'");
    }
    refused([&]() { getFactInitFromString("init_jacobi"); }, "factor initialisation 'init_jacobi'"); refused([&]() { getApplyInitFromString("init_sgs"); }, "apply initialisation 'init_sgs'"); refused([&]() { getApplyInitFromString("init_original"); }, "apply initialisation 'init_original'");
  });
}
// supported combinations; everything else is refused
static void support(mc::Runner& R) {
  for (int row = 0; row < 2; row++) for (int bs = 1; bs <= 9; bs++) {
    if (!R.begin(mc::fmt("support/%s/bs=%d", row ? "row" : "col", bs))) continue;
    Mat m = make(symm_pattern(3, 5), bs, row == 1, 600 + bs);
    mc::Cfg c; c.threads = 1; c.check_leaks = true;
    R.explore(c, [&]() {
      In in(m, false);
      bool built = bs == 1 || bs == 4 || (bs == 5 && !row);
      for (int t = -1; t <= 14; t++) for (int relax = 0; relax < 2; relax++) {
        int k = -1; for (int q = 0; q < NT; q++) if ((int)TYPES[q] == t) k = q;
        bool ok = built && k >= 0 && !(bs > 1 && TYPES[k] == BLASTED_CSC_BGS);
        OpCfg o; o.type = (BlastedSolverType)t; o.relax = relax; mc::trans_add(1);
        if (!ok) { refused([&]() { Op* op = make_op(in, o); delete op; }, mc::fmt("solver type %d with block size %d (%s)", t, bs, row ? "row major" : "column major")); continue; }
        Op* op = make_op(in, o);
        if (op->dim() != m.N()) mc::fail(mc::fmt("%s: dimension is %d, should be %d", NAMES[k], op->dim(), m.N()));
        if (op->relaxationAvailable() != relaxes(o.type)) mc::fail(mc::fmt("%s: relaxation availability is wrong", NAMES[k]));
        delete op;
      }
      in.free_all();
    });
  }
}
// one thread: every numeric option
static void numeric(mc::Runner& R, const Lay& L, const Mat& m, int k, const char* tag) {
  const BlastedSolverType t = TYPES[k];
  if (L.bs > 1 && t == BLASTED_CSC_BGS) return;
  Vec r = vec(m.N(), 31), b = vec(m.N(), 32), x0 = vec(m.N(), 33), zero(m.N(), 0.0);
  static const FactInit FI[3] = {INIT_F_ZERO, INIT_F_ORIGINAL, INIT_F_SGS};
  mc::Cfg c; c.threads = 1; c.check_leaks = true;
  for (int relax = 0; relax < 2; relax++) {
    if (!R.begin(mc::fmt("numeric/%s/%s/%s/relax=%d", L.name, tag, NAMES[k], relax))) continue;
    if (is_ilu(t)) for (int sc = 0; sc < 2; sc++) {
      Mat As = sc ? scaled(m, scaling(m)) : m; Fac ex = exact_factors(As);
      for (int f = 0; f < 3; f++) { Fac in0 = initial(As, FI[f]);
        R.explore(c, [&]() {
          In in(m, false);
          for (int build = 0; build < 3; build++) for (int ap = 0; ap < 3; ap++) for (int ai = 0; ai < 2; ai++) for (int info = 0; info < 2; info++) for (int chunk = 1; chunk < 4; chunk += 2) {
            OpCfg o; o.type = t; o.build = build; o.apply = ap; o.fi = FI[f]; o.ai = ai ? INIT_A_JACOBI : INIT_A_ZERO; o.scale = sc; o.chunk = chunk; o.info = info; o.relax = relax;
            Op* op = make_op(in, o); PrecInfo pi = op->compute(); mc::trans_add(1);
            const Fac& got = build ? ex : in0;
            std::string w = mc::fmt("%s scale=%d build=%d apply=%d applyinit=%d info=%d chunk=%d", NAMES[k], sc, build, ap, ai, info, chunk);
            if (info) { if (!close(pi.prec_rem_initial_norm(), remainder(As, in0), 1e-9)) mc::fail(w + ": initial remainder belongs to other options"); if (!close(pi.prec_remainder_norm(), remainder(As, got), 1e-9)) mc::fail(w + ": final remainder belongs to other options"); }
            if (ap == 0 && t != BLASTED_ASYNC_LEVEL_ILU0) { if (!(f == 0 && build == 0)) same(run_apply(op, r), zero, w); }
            else if (!(f == 0 && build == 0)) same(run_apply(op, r), fac_apply(got, m, sc, r), w);
            { bool threw = false; double* x = dup(x0); double* bb = dup(b); try { op->apply_relax(bb, x); } catch (const std::runtime_error&) { threw = true; } if (!threw) mc::fail(w + ": relaxation is not refused"); free(x); free(bb); }
            delete op;
          }
          in.free_all();
        }); }
    }
    else R.explore(c, [&]() {
      In in(m, false);
      for (int ap = 0; ap < 4; ap++) for (int ai = 0; ai < 2; ai++) for (int chunk = 1; chunk < 4; chunk += 2) for (int sc = 0; sc < 2; sc++) for (int its = 0; its < 4; its++) {
        OpCfg o; o.type = t; o.apply = ap; o.build = 3 - ap; o.ai = ai ? INIT_A_JACOBI : INIT_A_ZERO; o.chunk = chunk; o.scale = sc; o.relax = relax;
        Op* op = make_op(in, o); op->setApplyParams(params(its)); op->compute(); mc::trans_add(1);
        std::string w = mc::fmt("%s apply=%d applyinit=%d chunk=%d its=%d", NAMES[k], ap, ai, chunk, its);
        if (t == BLASTED_JACOBI) same(run_apply(op, r), jacobi_apply(m, r), w);
        else if (t == BLASTED_GS) same(run_apply(op, r), gs(m, r, zero, ap, false), w);
        else if (t == BLASTED_SGS) same(run_apply(op, r), ap ? sgs_apply(m, r) : zero, w);
        else if (t == BLASTED_LEVEL_SGS) same(run_apply(op, r), sgs_apply(m, r), w);
        else if (t == BLASTED_CSC_BGS) { if (ap) same(run_apply(op, r), bsolve_upper(m, r), w); }
        else same(run_apply(op, r), r, w);
        if (relaxes(t)) { double *x = dup(x0), *bb = dup(b); op->apply_relax(bb, x); Vec g(x, x + m.N()), want = x0;
          if (t == BLASTED_JACOBI) for (int q = 0; q < its; q++) { Vec y = want; for (int i = 0; i < m.n; i++) { Vec z = want; gs_row(m, i, b, z); for (int a = 0; a < m.bs; a++) y[i*m.bs+a] = z[i*m.bs+a]; } want = y; }
          else want = gs(m, b, x0, its, t != BLASTED_GS);
          same(g, want, w + " relaxation", 1e-8); free(x); free(bb); }
        delete op;
      }
      in.free_all();
    });
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C22");
  const bool th = R.thorough();
  names(R); support(R);
  for (const Lay& L : LAYS) for (int k = 0; k < NT; k++) {
    numeric(R, L, make(symm_pattern(3, 5), L.bs, L.row, 610), k, "path3");
    numeric(R, L, make(symm_pattern(3, 7), L.bs, L.row, 611), k, "full3");
    if (th || L.bs == 1) { numeric(R, L, make(symm_pattern(4, 0x2d), L.bs, L.row, 612), k, "mask2d4"); numeric(R, L, make(symm_pattern(1, 0), L.bs, L.row, 613), k, "one"); }
  }
  // two threads: threading flags, chunk sizes and sweep counts reach the loops
  for (const Lay& L : LAYS) for (int big = 0; big < 2; big++) for (int T : {2, 3, 5, 17}) {
    const char* sz = big ? "/long" : "";
    Mat m = make(big ? band_pattern(L.bs == 1 ? (T > 10 ? 300 : 600) : T > 10 ? 150 : 260, {-1, 1}) : symm_pattern(4, 0x2d), L.bs, L.row, 620); Vec r = vec(m.N(), 34), x0 = vec(m.N(), 35);
    if (R.begin(mc::fmt("threading/%s/threads=%d%s", L.name, T, sz))) {
      mc::Cfg c; c.threads = T; c.schedules = false;
      R.explore(c, [&]() {
        In in(m, false);
        for (int sc = 0; sc < 2; sc++) for (int info = 0; info < 2; info++) {
          int nc[2][NT], na[2][NT];     // regions run by teams, for one and for three sweeps
          for (int k = 0; k < NT; k++) if (is_ilu(TYPES[k])) {
            OpCfg o; o.type = TYPES[k]; o.build = 2; o.apply = 2; o.scale = sc; o.info = info; Op* op = make_op(in, o);
            int a = mc::team_regions(); op->compute(); int b = mc::team_regions(); run_apply(op, r); int d = mc::team_regions();
            nc[0][k] = b - a; na[0][k] = d - b; delete op; mc::trans_add(1);
          }
          int s = 4;      // seqilu0
          if (TYPES[s] != BLASTED_SEQILU0) mc::fail("table");
          for (int k = 0; k < NT; k++) if (is_ilu(TYPES[k])) {
            if (tfac(TYPES[k]) ? nc[0][k] <= nc[0][s] : nc[0][k] != nc[0][s]) mc::fail(mc::fmt("%s: the factorisation is%s run by several threads", NAMES[k], tfac(TYPES[k]) ? " not" : ""));
            if (TYPES[k] != BLASTED_ASYNC_LEVEL_ILU0 && (tapp(TYPES[k]) ? na[0][k] <= na[0][s] : na[0][k] != na[0][s])) mc::fail(mc::fmt("%s: the application is%s run by several threads", NAMES[k], tapp(TYPES[k]) ? " not" : ""));
          }
        }
      });
    }
    if (R.begin(mc::fmt("chunks/%s/threads=%d%s", L.name, T, sz))) {
      mc::Cfg c; c.threads = T; c.schedules = false;
      R.explore(c, [&]() {
        In in(m, false);
        int k = mc::choose(NT); for (int chunk : {1, 2, 3, 4, 5, 6, 7, 64, 400, 3000}) {
          if (big && chunk < 64 && chunk != 7) continue;
          if (L.bs > 1 && TYPES[k] == BLASTED_CSC_BGS) return;
          // a further sweep of any phase adds loops, and those run with the chunk size asked for; loops that do
          // not depend on the number of sweeps may be cut up as the implementation likes
          long all[2][3] = {}, own[2][3] = {}; auto with = [&]() { return chunk >= m.n ? mc::loops_from(m.n) : mc::loops_with(chunk); };   // one chunk for all rows, whatever its size
          for (int e = 0; e < 2; e++) {
            OpCfg o; o.type = TYPES[k]; o.build = 2 + e; o.apply = 3 + e; o.chunk = chunk; o.info = chunk % 2; Op* op = make_op(in, o); op->setApplyParams(params(2 + e));
            mc::loops_reset(); op->compute(); all[e][0] = mc::loops_seen(); own[e][0] = with();
            mc::loops_reset(); run_apply(op, r); all[e][1] = mc::loops_seen(); own[e][1] = with();
            if (relaxes(TYPES[k])) { mc::loops_reset(); double *x = dup(x0), *b = dup(r); op->apply_relax(b, x); all[e][2] = mc::loops_seen(); own[e][2] = with(); }
            delete op; mc::trans_add(1);
          }
          for (int ph = 0; ph < 3; ph++) if (all[1][ph] - all[0][ph] != own[1][ph] - own[0][ph]) mc::fail(mc::fmt("%s, %s: chunk size %d was asked for; another sweep runs %ld loops, %ld of them with it", NAMES[k], ph == 0 ? "factorisation" : ph == 1 ? "application" : "relaxation", chunk, all[1][ph] - all[0][ph], own[1][ph] - own[0][ph]));
        }
      });
    }
    if (R.begin(mc::fmt("sweeps/%s/threads=%d%s", L.name, T, sz))) {
      mc::Cfg c; c.threads = T; c.schedules = false;
      R.explore(c, [&]() {
        In in(m, false);
        int k = mc::choose(NT); {
          if (L.bs > 1 && TYPES[k] == BLASTED_CSC_BGS) return;
          const int S = big ? 9 : 35; long nb[35], na[35], nr[35];
          for (int s = 0; s < S; s++) { OpCfg o; o.type = TYPES[k]; o.build = s; o.apply = S - 1 - s; Op* op = make_op(in, o); op->setApplyParams(params(s));
            mc::loops_reset(); op->compute(); nb[s] = mc::loops_seen(); mc::loops_reset(); run_apply(op, r); na[S - 1 - s] = mc::loops_seen(); nr[s] = 0;
            if (relaxes(TYPES[k])) { mc::loops_reset(); double *x = dup(x0), *b = dup(r); op->apply_relax(b, x); nr[s] = mc::loops_seen(); } delete op; mc::trans_add(1); }
          if (mc::untracked_loops()) return;      // worksharing the engine does not count
          for (int s = 1; s < S; s++) { if (nb[s] - nb[s-1] != nb[1] - nb[0] || (nb[s] == nb[s-1]) != !tfac(TYPES[k])) mc::fail(mc::fmt("%s: %d build sweeps run %ld loops, %d run %ld", NAMES[k], s, nb[s], s - 1, nb[s-1]));
            bool aa = tapp(TYPES[k]) || TYPES[k] == BLASTED_SGS || TYPES[k] == BLASTED_GS || TYPES[k] == BLASTED_CSC_BGS;
            if (na[s] - na[s-1] != na[1] - na[0] || (na[s] == na[s-1]) != !aa) mc::fail(mc::fmt("%s: %d apply sweeps run %ld loops, %d run %ld", NAMES[k], s, na[s], s - 1, na[s-1]));
            if (nr[s] - nr[s-1] != nr[1] - nr[0]) mc::fail(mc::fmt("%s: %d relaxation iterations run %ld loops, %d run %ld", NAMES[k], s, nr[s], s - 1, nr[s-1])); }
        }
      });
    }
  }
  // schedules: sequential parts are exact after one sweep on every schedule, threaded parts after enough of them,
  // and an upper triangular 2x2 system shows which initial iterate the application starts from
  for (const Lay& L : LAYS) for (int k = 0; k < NT; k++) if (is_ilu(TYPES[k]) || TYPES[k] == BLASTED_SGS) {
    for (int sc = 0; sc < (is_ilu(TYPES[k]) ? 2 : 1); sc++) if (R.begin(mc::fmt("exact/%s/%s/scale=%d", L.name, NAMES[k], sc))) {
      Mat m = make(symm_pattern(2, 1), L.bs, L.row, 630 + sc); Vec r = vec(m.N(), 36), want = TYPES[k] == BLASTED_SGS ? sgs_apply(m, r) : ilu_apply(m, sc, r);
      mc::Cfg c; c.threads = 2; c.preempt = L.bs == 1 ? 2 : 1; c.delay = 0;
      R.explore(c, [&]() {
        In in(m, false); OpCfg o; o.type = TYPES[k]; o.scale = sc; o.build = tfac(o.type) ? enough(entry_depth(m), 0) : 1; o.apply = tapp(o.type) || o.type == BLASTED_SGS ? 2 : 1; o.fi = INIT_F_SGS; o.ai = INIT_A_JACOBI;
        Op* op = make_op(in, o); op->compute(); Vec z = run_apply(op, r); if (!mc::untracked_loops()) same(z, want, NAMES[k]); mc::observe(mc::hash(z.data(), z.size() * 8)); delete op;
      });
    }
    if (!tapp(TYPES[k]) && TYPES[k] != BLASTED_SGS) continue;
    for (int sc = 0; sc < (is_ilu(TYPES[k]) ? 2 : 1); sc++) for (int ai = 0; ai < (TYPES[k] == BLASTED_SGS ? 3 : 2); ai++) if (R.begin(mc::fmt("applyinit/%s/%s/scale=%d/init=%d", L.name, NAMES[k], sc, ai))) {
      Mat m = make({{0, 1}, {1}}, L.bs, L.row, 640 + sc); Vec r = vec(m.N(), 37), s = sc ? scaling(m) : Vec(m.N(), 1.0), rs = r, x0 = vec(m.N(), 38); for (int i = 0; i < m.N(); i++) rs[i] *= s[i];
      Mat As = sc ? scaled(m, s) : m; if (TYPES[k] == BLASTED_SGS) { }
      Vec y = TYPES[k] == BLASTED_SGS ? jacobi_apply(m, r) : rs;     // after the forward phase
      RowSys S = row_system(As, 2, TYPES[k] == BLASTED_SGS ? r : rs); Vec init = ai == 0 ? Vec(m.N(), 0.0) : ai == 1 ? y : x0;
      mc::Cfg c; c.threads = 2; c.preempt = L.bs == 1 ? 2 : 1;
      R.explore(c, [&]() {
        In in(m, false); OpCfg o; o.type = TYPES[k]; o.scale = sc; o.build = 2; o.apply = 1; o.fi = INIT_F_SGS; o.ai = ai == 0 ? INIT_A_ZERO : ai == 1 ? INIT_A_JACOBI : INIT_A_NONE;
        Op* op = make_op(in, o); mc::set_threads(1); op->compute(); mc::set_threads(2);
        double *rr = dup(r), *z = dup(x0); op->apply(rr, z); for (int i = 0; i < m.N(); i++) z[i] /= s[i];
        expect_one_sweep(S, z, init, mc::fmt("%s with apply initialisation %d", NAMES[k], ai).c_str()); mc::observe(mc::hash(z, m.N() * 8)); delete op;
      });
    }
  }
  return R.finish();
}
