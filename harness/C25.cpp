// PETSc shell interface against a stand-in of PETSc: every nesting of solvers, option combination and call history
// check:extrasrc=src/blasted_petsc.cpp @mock/mock.cpp
// check:incdirs=mock/include mock
#include "ops.hpp"
#include "mock.hpp"
#include "blasted_petsc_ext.hpp"
#include "preconditioner_diagnostics.hpp"
#include <set>
namespace ref {
typedef std::vector<std::pair<std::string, std::string>> Opts;
static const char* NAMES[] = {"jacobi","gs","sgs","ilu0","seqilu0","sfilu0","sapilu0","cscbgs","level_sgs","async_level_ilu0","none"};
static const BlastedSolverType TYPES[] = {BLASTED_JACOBI,BLASTED_GS,BLASTED_SGS,BLASTED_ILU0,BLASTED_SEQILU0,BLASTED_SFILU0,BLASTED_SAPILU0,BLASTED_CSC_BGS,BLASTED_LEVEL_SGS,BLASTED_ASYNC_LEVEL_ILU0,BLASTED_NO_PREC};
enum { NT = 11 };
static bool is_ilu(BlastedSolverType t) { return t == BLASTED_ILU0 || t == BLASTED_SEQILU0 || t == BLASTED_SFILU0 || t == BLASTED_SAPILU0 || t == BLASTED_ASYNC_LEVEL_ILU0; }
static bool relaxes(BlastedSolverType t) { return t == BLASTED_JACOBI || t == BLASTED_GS || t == BLASTED_SGS || t == BLASTED_LEVEL_SGS; }
static bool sweeps(BlastedSolverType t) { return t != BLASTED_JACOBI && t != BLASTED_LEVEL_SGS && t != BLASTED_NO_PREC; }

struct Req { BlastedSolverType t = BLASTED_JACOBI; int build = 1, apply = 1, fi = 1, ai = 0, chunk = 1; bool scale = false, info = false; };
static const char* FN[] = {"init_zero","init_original","init_sgs"}; static const FactInit FV[] = {INIT_F_ZERO, INIT_F_ORIGINAL, INIT_F_SGS};
static const char* AN[] = {"init_zero","init_jacobi"}; static const ApplyInit AV[] = {INIT_A_ZERO, INIT_A_JACOBI};
static Opts options_of(const Req& q, bool all = true) {
  Opts o; int k = 0; for (int i = 0; i < NT; i++) if (TYPES[i] == q.t) k = i;
  o.push_back({"-blasted_pc_type", NAMES[k]});
  if (sweeps(q.t) || all) {
    o.push_back({"-blasted_async_sweeps", mc::fmt("%d,%d", q.build, q.apply)}); o.push_back({"-blasted_use_symmetric_scaling", q.scale ? "true" : "false"});
    o.push_back({"-blasted_async_fact_init_type", FN[q.fi]}); o.push_back({"-blasted_async_apply_init_type", AN[q.ai]}); o.push_back({"-blasted_thread_chunk_size", mc::fmt("%d", q.chunk)});
  }
  if (q.info) o.push_back({"-blasted_compute_preconditioner_info", q.chunk % 2 ? "" : "true"});
  return o;
}
// what the request means; false: it has to be refused
static bool meaning(const Req& q, OpCfg& o) {
  o.type = q.t; o.build = q.build; o.apply = q.apply; o.chunk = q.chunk; o.info = q.info; o.ai = AV[q.ai]; o.fi = FV[q.fi];
  // scaling and factor initialisation are options of the operators with an asynchronous factorisation
  bool af = q.t == BLASTED_ILU0 || q.t == BLASTED_SAPILU0 || q.t == BLASTED_ASYNC_LEVEL_ILU0;
  o.scale = af && q.scale;
  if (!sweeps(q.t)) return true;
  bool sb = q.build == -1, sa = q.apply == -1;
  if (q.t == BLASTED_SEQILU0) { if (sb) o.build = 1; if (sa) o.apply = 1; return true; }
  if (!sb && !sa) return true;
  // one of the two parts sequential by type, the other by the number of sweeps
  if ((sb && sa) || (sa && q.t == BLASTED_SFILU0) || (sb && q.t == BLASTED_SAPILU0)) {
    if (q.t != BLASTED_ILU0 && q.t != BLASTED_SFILU0 && q.t != BLASTED_SAPILU0 && q.t != BLASTED_ASYNC_LEVEL_ILU0) return false;
    o.type = BLASTED_SEQILU0; o.build = o.apply = 1; return true;
  }
  if (sa) { if (q.t != BLASTED_ILU0 && q.t != BLASTED_SAPILU0) return false; o.type = BLASTED_SAPILU0; o.apply = 1; }
  if (sb) { if (q.t != BLASTED_ILU0 && q.t != BLASTED_SFILU0) return false; o.type = BLASTED_SFILU0; o.build = 1; }
  return true;
}
static Vec want_apply(const OpCfg& o, const Mat& m, const Vec& r) {
  switch (o.type) {
    case BLASTED_JACOBI: return jacobi_apply(m, r);
    case BLASTED_GS: return gs(m, r, Vec(m.N(), 0.0), o.apply, false);
    case BLASTED_SGS: case BLASTED_LEVEL_SGS: return sgs_apply(m, r);
    case BLASTED_CSC_BGS: return bsolve_upper(m, r);
    case BLASTED_NO_PREC: return r;
    default: return ilu_apply(m, o.scale, r);
  }
}
static Vec want_relax(const OpCfg& o, const Mat& m, const Vec& b, const Vec& x0, int its) {
  if (o.type == BLASTED_JACOBI) { Vec x = x0; for (int k = 0; k < its; k++) { Vec y = x; for (int i = 0; i < m.n; i++) { Vec q = x; gs_row(m, i, b, q); for (int a = 0; a < m.bs; a++) y[i*m.bs+a] = q[i*m.bs+a]; } x = y; } return x; }
  return gs(m, b, x0, its, o.type != BLASTED_GS);
}
static void same(const double* g, const Vec& w, const char* what) { for (size_t i = 0; i < w.size(); i++) if (!close(g[i], w[i], 1e-8)) mc::fail(mc::fmt("%s: entry %zu is %.12g, should be %.12g", what, i, g[i], w[i])); }

/* ---- solver trees ---- */
// text form: s = shell solver; b(..) block Jacobi, a(..) Schwarz, k(..) nested solver, m(..) multigrid, g(..) algebraic multigrid, j = something else
struct Sys { In* in; ::Mat A; int k; };       // one shell solver's matrix
struct Tree { KSP top; std::vector<KSP> shells; std::vector<::Mat> mats, sys; std::vector<double*> sysv; };
static bool g_two;        // the systems solved have other matrices than the ones preconditioners are built from
static void system_mat(KSP k, const In& in, const Lay& L, const char* type, Tree& t) {
  size_t n = in.m.v.size(); double* v = fresh<double>(n); for (size_t i = 0; i < n; i++) v[i] = -3 * in.m.v[n - 1 - i] + 0.25;
  ::Mat A = mock::mat(L.bs, in.m.n, type, in.rp, in.ci, v, in.di, L.bs > 1); k->Am = k->pc->Am = A; t.sys.push_back(A); t.sysv.push_back(v);
}
static void free_sys(Tree& t) { for (auto A : t.sys) mock::free_mat(A); for (auto v : t.sysv) free(v); }
static KSP parse(const char*& s, const std::vector<In*>& ins, size_t& used, const Lay& L, Tree& t, const char* type) {
  char c = *s++; 
  auto leafmat = [&]() { const In& in = *ins[used++ % ins.size()]; ::Mat A = mock::mat(L.bs, in.m.n, type, in.rp, in.ci, in.v, in.di, L.bs > 1); t.mats.push_back(A); return A; };
  if (c == 's') { KSP k = mock::ksp(PCSHELL, leafmat()); t.shells.push_back(k); if (g_two) system_mat(k, *ins[(used - 1) % ins.size()], L, type, t); return k; }
  if (c == 'j') return mock::ksp(PCLU, nullptr);
  const char* pt = c == 'b' ? PCBJACOBI : c == 'a' ? PCASM : c == 'k' ? PCKSP : c == 'm' ? PCMG : PCGAMG;
  KSP k = mock::ksp(pt, nullptr); s++;
  while (*s != ')') { k->pc->sub[k->pc->nsub++] = parse(s, ins, used, L, t, type); if (*s == ',') s++; }
  s++; return k;
}
static int nshells(const char* s) { int n = 0; for (; *s; s++) n += *s == 's'; return n; }
static ::_p_Vec* vec_of(double* a, int n) { ::Vec v = new _p_Vec(); v->a = a; v->n = n; return v; }

struct RecFactory : public FactoryBase<double,int> {      // an extension: builds what the standard factory builds, and counts
  SRFactory<double,int> f; mutable int built = 0;
  BlastedSolverType solverTypeFromString(const std::string s) const override { return s == "mine" ? BLASTED_JACOBI : f.solverTypeFromString(s); }
  SRPreconditioner<double,int>* create_preconditioner(SRMatrixStorage<const double, const int>&& m, const SolverSettings& s) const override { built++; return f.create_preconditioner(std::move(m), s); }
};
static int setup(KSP k, RecFactory* rf, Blasted_data_list* l) { return rf ? blasted::setup_blasted_stack_ext(k, *rf, l) : setup_blasted_stack(k, l); }

static int list_length(const Blasted_data_list& l) { int n = 0; for (Blasted_data* d = l.ctxlist; d; d = d->next) if (++n > 1000) return -1; return n; }

// one history: set-up, then `depth` operations on the shell solvers, then destruction
static void history(mc::Runner& R, const char* tree, const Lay& L, const char* type, const Req& q, bool ext, int depth, int again, int own_bs) {
  const int T = 1;
  const int NV = 2; int ns = nshells(tree);
  OpCfg o; if (!meaning(q, o)) { fprintf(stderr, "history of a refused request\n"); abort(); }
  std::vector<std::vector<Mat>> vals(2, std::vector<Mat>());
  std::vector<Mat> base = {make(symm_pattern(3, 5), L.bs, L.row, 700), make(symm_pattern(2, 1), L.bs, L.row, 701)};
  for (int s = 0; s < 2; s++) for (int v = 0; v < NV; v++) { Mat m = v ? make(symm_pattern(s ? 2 : 3, s ? 1 : 5), L.bs, L.row, 710 + s) : base[s]; vals[s].push_back(m); }
  Vec r[2], b[2], x0[2]; std::vector<std::vector<Vec>> wa(2), wr(2), wz(2);
  for (int s = 0; s < 2; s++) { r[s] = vec(base[s].N(), 71); b[s] = vec(base[s].N(), 72); x0[s] = vec(base[s].N(), 73);
    for (int v = 0; v < NV; v++) { wa[s].push_back(want_apply(o, vals[s][v], r[s])); if (relaxes(o.type)) for (int its = 1; its <= 2; its++) { wr[s].push_back(want_relax(o, vals[s][v], b[s], x0[s], its)); wz[s].push_back(want_relax(o, vals[s][v], b[s], Vec(base[s].N(), 0.0), its)); } } }
  Req first; first.t = q.t == BLASTED_JACOBI ? BLASTED_ILU0 : BLASTED_JACOBI; first.info = !q.info; const Opts before = options_of(first);
  mock::options = options_of(q, again % 2); mock::fail_at = -1; mock::ranks = 1;
  mc::Cfg c; c.threads = T; c.schedules = false; c.check_leaks = true;
  R.explore(c, [&]() {
    mock::failed = false; mock::calls = 0; mock::instead = nullptr;
    {
    // with several shells, matrices differ from one to the next
    std::vector<std::unique_ptr<In>> own; std::vector<In*> ins; for (int i = 0; i < ns; i++) { own.emplace_back(new In(base[i % 2], false)); ins.push_back(own.back().get()); }
    Tree t; size_t used = 0; const char* s = tree; t.top = parse(s, ins, used, L, t, type);
    if (own_bs) for (auto A : t.mats) A->bs = own_bs;
    Blasted_data_list list = newBlastedDataList(); RecFactory rf;
    if (list.ctxlist || list.size != 0) mc::fail("a new context list is not empty");
    if (again == 2) mock::instead = &before;
    for (int k = 0; k < (again == 1 ? 2 : 1); k++) {       // setting the stack up again must be harmless
      int had = list_length(list);
      int e = setup(t.top, ext ? &rf : nullptr, &list); if (e) mc::fail(mc::fmt("set-up of the solver stack reports error %d", e));
      if (list_length(list) - had != (int)t.shells.size()) mc::fail(mc::fmt("%d contexts were added for %zu shell preconditioners", list_length(list) - had, t.shells.size()));
      if (list.size != list_length(list)) mc::fail("the size of the context list is wrong");
      if (again == 2) {      // the same contexts again, with other options
        for (auto h : t.shells) { if (int e2 = PCSetUp(h->pc)) mc::fail(mc::fmt("set-up reports error %d", e2)); }
        mock::instead = nullptr;
        for (auto h : t.shells) if (int e2 = setup_localpreconditioner_blasted(h, (Blasted_data*)h->pc->ctx)) mc::fail(mc::fmt("set-up of one solver reports error %d", e2));
      }
      if (again == 1 && k == 0) for (auto h : t.shells) { KSPSetUp(h); if (int e2 = PCSetUp(h->pc)) mc::fail(mc::fmt("set-up reports error %d", e2)); }
    }
    std::set<void*> ctxs; for (auto h : t.shells) { void* x = h->pc->ctx; bool in_list = false; for (Blasted_data* d = list.ctxlist; d; d = d->next) in_list |= d == x; if (!x || !in_list || !ctxs.insert(x).second) mc::fail("a shell preconditioner has no context of its own"); if (((Blasted_data*)x)->bs != L.bs) mc::fail("wrong block size in the context"); if (!h->pc->setup || !h->pc->apply || !h->pc->destroy) mc::fail("a callback of the shell preconditioner was not set"); }
    std::vector<int> cur(ns, 0), comp(ns, -1), ncomp(ns, 0);
    auto su = [&](int k) { int e = PCSetUp(t.shells[k]->pc); if (e) mc::fail(mc::fmt("set-up reports error %d", e)); comp[k] = cur[k]; ncomp[k]++; };
    auto check_vec = [&](::Vec v, const char* what) { if (v->readers || v->writers) mc::fail(mc::fmt("the array of %s was not given back", what)); };
    auto ap = [&](int k) {
      int sy = k % 2, N = base[sy].N(); double *ra = dup(r[sy]), *za = fresh<double>(N); ::Vec rv = vec_of(ra, N), zv = vec_of(za, N);
      if (int e = t.shells[k]->pc->apply(t.shells[k]->pc, rv, zv)) mc::fail(mc::fmt("application reports error %d", e));
      if (comp[k] == cur[k] && T == 1) same(za, wa[sy][cur[k]], "apply");
      for (int i = 0; i < N; i++) if (ra[i] != r[sy][i]) mc::fail("the right-hand side was modified");
      check_vec(rv, "the right-hand side"); check_vec(zv, "the result"); mc::observe(mc::hash(za, N * 8, k)); free(ra); free(za); delete rv; delete zv;
    };
    auto rx = [&](int k, bool zero, int its) {
      int sy = k % 2, N = base[sy].N(); PC pc = t.shells[k]->pc;
      if (!pc->richardson) return;
      double *ra = dup(b[sy]), *za = dup(x0[sy]), *wa_ = fresh<double>(N); ::Vec rv = vec_of(ra, N), zv = vec_of(za, N), wv = vec_of(wa_, N); int outits = -7; PCRichardsonConvergedReason why = PCRICHARDSON_DIVERGED_DTOL;
      if (int e = pc->richardson(pc, rv, zv, wv, 0.9, 1e6, 2.0, its, zero ? PETSC_TRUE : PETSC_FALSE, &outits, &why)) mc::fail(mc::fmt("relaxation reports error %d", e));
      if (comp[k] == cur[k] && T == 1) same(za, (zero ? wz : wr)[sy][cur[k] * 2 + its - 1], zero ? "relaxation from zero" : "relaxation");
      if (outits != its || why != PCRICHARDSON_CONVERGED_ITS) mc::fail(mc::fmt("relaxation reports %d iterations and reason %d", outits, (int)why));
      check_vec(rv, "the right-hand side"); check_vec(zv, "the iterate"); mc::observe(mc::hash(za, N * 8, k)); free(ra); free(za); free(wa_); delete rv; delete zv; delete wv;
    };
    for (int k = 0; k < ns; k++) { KSPSetUp(t.shells[k]); ncomp[k]++; comp[k] = cur[k];
      bool rich = t.shells[k]->pc->richardson != nullptr; if (rich != relaxes(o.type)) mc::fail(mc::fmt("relaxation is %s although the operator %s one", rich ? "offered" : "not offered", relaxes(o.type) ? "has" : "does not have"));
      if (!strstr(t.shells[k]->pc->name, mock::options[0].second.c_str())) mc::fail("the name of the shell preconditioner does not tell what it is"); }
    for (int d = 0; d < depth; d++) {
      int a = mc::choose(relaxes(o.type) ? 6 : 3), k = ns == 1 ? 0 : mc::choose(ns); mc::trans_add(1);
      if (a == 0) { if (d == depth - 1) continue; cur[k] = (cur[k] + 1) % NV; memcpy(ins[k]->v, vals[k % 2][cur[k]].v.data(), vals[k % 2][cur[k]].v.size() * 8); }
      else if (a == 1) su(k); else if (a == 2) ap(k); else if (a == 3) rx(k, false, 1); else if (a == 4) rx(k, true, 2); else rx(k, false, 2);
    }
    for (int k = 0; k < ns; k++) { su(k); ap(k); if (relaxes(o.type)) rx(k, false, 1); }
    if (ext && rf.built != ns * (again ? 2 : 1)) mc::fail(mc::fmt("the given factory was used %d times for %d operators", rf.built, ns * (again ? 2 : 1)));
    // diagnostics: one record per computation
    for (int k = 0; k < ns; k++) { auto* d = (Blasted_data*)t.shells[k]->pc->ctx; auto* pl = (PrecInfoList*)d->infolist; 
      if (!q.info) { if (pl) mc::fail("diagnostics are there although they were not requested"); continue; }
      if (!pl) mc::fail("diagnostics were requested but are not there");
      if ((int)pl->infolist.size() != ncomp[k]) mc::fail(mc::fmt("%zu diagnostic records after %d computations", pl->infolist.size(), ncomp[k])); }
    // times
    double f = 0, fw = 0, a = 0, aw = 0; for (Blasted_data* d = list.ctxlist; d; d = d->next) { f += d->factorcputime; fw += d->factorwalltime; a += d->applycputime; aw += d->applywalltime; }
    for (int rep = 0; rep < 2; rep++) { computeTotalTimes(&list); if (std::fabs(list.factorcputime - f) > 1e-12 || std::fabs(list.factorwalltime - fw) > 1e-12 || std::fabs(list.applycputime - a) > 1e-12 || std::fabs(list.applywalltime - aw) > 1e-12) mc::fail("total times are not the sums over the contexts"); }
    // diagnostics stay available until the list is destroyed
    if (int e = mock::destroy(t.top)) mc::fail(mc::fmt("destruction reports error %d", e));
    destroyBlastedDataList(&list);
    if (list.ctxlist || list.size) mc::fail("the destroyed context list is not empty");
    for (auto A : t.mats) mock::free_mat(A); free_sys(t);
    for (int k = 0; k < ns; k++) { const Mat& m = vals[k % 2][cur[k]]; for (size_t i = 0; i < m.v.size(); i++) if (ins[k]->v[i] != m.v[i]) mc::fail("the matrix was modified"); ins[k]->free_all(); }
    }
  });
}
// one shell solver: the request reaches the operator
static void request(mc::Runner& R, const Lay& L, const Req& q, int T) {
  OpCfg o; bool ok = meaning(q, o); if (L.bs > 1 && q.t == BLASTED_CSC_BGS) ok = false;
  Mat m = make(symm_pattern(3, 5), L.bs, L.row, 720); Vec r = vec(m.N(), 74);
  mock::options = options_of(q); mock::fail_at = -1; mock::ranks = 1;
  Vec want; if (ok) want = want_apply(o, m, r);
  mc::Cfg c; c.threads = T; c.schedules = false; c.check_leaks = ok;
  R.explore(c, [&]() {
    mock::failed = false; mock::calls = 0; mc::trans_add(1);
    In in(m, false); ::Mat A = mock::mat(L.bs, m.n, L.bs > 1 ? MATSEQBAIJ : MATSEQAIJ, in.rp, in.ci, in.v, in.di, L.bs > 1);
    KSP k = mock::ksp(PCSHELL, A); Tree two; if ((q.chunk + q.apply) & 1) system_mat(k, in, L, L.bs > 1 ? "shell-baij" : "shell", two);
    Blasted_data_list list = newBlastedDataList();
    if (int e = setup_blasted_stack(k, &list)) mc::fail(mc::fmt("set-up of the solver stack reports error %d", e));
    bool refused = false;
    mc::loops_reset(); int t0 = mc::team_regions();
    try { refused = KSPSetUp(k) != 0; } catch (const std::exception&) { refused = true; }
    if (refused == ok) mc::fail(ok ? "a valid request is refused" : "a request that cannot be honoured is accepted");
    if (!ok) return;
    long nb = mc::loops_seen(), cb = mc::loops_with(q.chunk); int tb = mc::team_regions() - t0;
    double *ra = dup(r), *za = fresh<double>(m.N()); ::Vec rv = vec_of(ra, m.N()), zv = vec_of(za, m.N());
    mc::loops_reset(); t0 = mc::team_regions();
    if (int e = k->pc->apply(k->pc, rv, zv)) mc::fail(mc::fmt("application reports error %d", e));
    long na = mc::loops_seen(), ca = mc::loops_with(q.chunk); int ta = mc::team_regions() - t0;
    if (T == 1) same(za, want, "apply");
    // the operator the request means, built directly
    Op* op = make_op(in, o); mc::loops_reset(); t0 = mc::team_regions(); PrecInfo pi = op->compute(); long nb2 = mc::loops_seen(), cb2 = mc::loops_with(q.chunk); int tb2 = mc::team_regions() - t0;
    double* zz = fresh<double>(m.N()); mc::loops_reset(); t0 = mc::team_regions(); op->apply(ra, zz); long na2 = mc::loops_seen(), ca2 = mc::loops_with(q.chunk); int ta2 = mc::team_regions() - t0;
    bool seq = o.type == BLASTED_SEQILU0;   // the number of sequential sweeps makes no difference
    bool af = o.type == BLASTED_ILU0 || o.type == BLASTED_SAPILU0 || o.type == BLASTED_ASYNC_LEVEL_ILU0 || !is_ilu(o.type);   // a sequential factorisation needs no initial guess
    if (!seq && (nb != nb2 || (af && tb != tb2))) mc::fail(mc::fmt("building runs %ld sweep loops and %d parallel regions, the requested operator %ld and %d", nb, tb, nb2, tb2));
    if (!seq && (na != na2 || ta != ta2)) mc::fail(mc::fmt("applying runs %ld sweep loops and %d parallel regions, the requested operator %ld and %d", na, ta, na2, ta2));
    if (!seq && cb != cb2) mc::fail("building does not use the requested chunk size"); if (!seq && ca != ca2) mc::fail("applying does not use the requested chunk size");
    for (int i = 0; i < m.N(); i++) if (!close(za[i], zz[i], 1e-9)) mc::fail("the result differs from the requested operator's");
    auto* pl = (PrecInfoList*)((Blasted_data*)k->pc->ctx)->infolist;
    if (q.info && is_ilu(o.type)) { if (!pl || pl->infolist.size() != 1) mc::fail("no diagnostics although they were requested"); PrecInfo& g = pl->infolist[0];
      if (!close(g.prec_remainder_norm(), pi.prec_remainder_norm(), 1e-9)) mc::fail("the diagnostics are not those of the operator");
      if ((o.type == BLASTED_ILU0 || o.type == BLASTED_SAPILU0 || o.type == BLASTED_ASYNC_LEVEL_ILU0) && !close(g.prec_rem_initial_norm(), pi.prec_rem_initial_norm(), 1e-9)) mc::fail("the factor initialisation is not the requested one"); }
    delete op; free(ra); free(za); free(zz); delete rv; delete zv; mock::destroy(k); destroyBlastedDataList(&list); mock::free_mat(A); free_sys(two); in.free_all();
  });
}
// every PETSc call that can fail, fails once: the error has to come out
static void faults(mc::Runner& R, const char* tree, const Lay& L, const Req& q) {
  Mat m = make(symm_pattern(3, 5), L.bs, L.row, 730); Vec r = vec(m.N(), 75), x0 = vec(m.N(), 76); mock::options = options_of(q); mock::ranks = 1;
  // an option that cannot be read counts as missing, which ends the program; an array that cannot be given back spoils no result
  mock::fail_options = false; auto exempt = [](const char* n) { return strstr(n, "Restore"); };
  long total = 0;
  mc::Cfg c; c.threads = 1;
  auto run = [&](long at) {
    mock::failed = false; mock::calls = 0; mock::fail_at = at; int ns = nshells(tree);
    std::vector<std::unique_ptr<In>> own; std::vector<In*> ins; for (int i = 0; i < ns; i++) { own.emplace_back(new In(m, false)); ins.push_back(own.back().get()); }
    Tree t; size_t used = 0; const char* s = tree; t.top = parse(s, ins, used, L, t, L.bs > 1 ? MATSEQBAIJ : MATSEQAIJ);
    Blasted_data_list list = newBlastedDataList(); int e = 0;
    auto go = [&](int x) { if (!e) e = x; };
    try {
      go(setup_blasted_stack(t.top, &list));
      for (auto h : t.shells) if (!e) { go(PCSetUp(h->pc)); double *a = dup(r), *z = dup(x0); ::Vec rv = vec_of(a, m.N()), zv = vec_of(z, m.N());
        if (!e) go(h->pc->apply(h->pc, rv, zv));
        int its; PCRichardsonConvergedReason why; if (!e && h->pc->richardson) go(h->pc->richardson(h->pc, rv, zv, zv, 0, 0, 0, 1, PETSC_TRUE, &its, &why));
        // once more with the same context
        if (!e) go(setup_localpreconditioner_blasted(h, (Blasted_data*)h->pc->ctx)); if (!e) go(PCSetUp(h->pc));
        if (!e) go(h->pc->destroy(h->pc)); }
    } catch (const std::exception&) { e = 999; }
    mc::trans_add(1);
    if (at >= 0) { if (mock::failed && !e && !exempt(mock::failed_call)) mc::fail(mc::fmt("an error of %s is swallowed", mock::failed_call)); }
    else { if (e) mc::fail(mc::fmt("error %d without a fault", e)); total = mock::calls; }
    mock::fail_at = -1;
    // whatever happened, everything can be destroyed
    mock::destroy(t.top); destroyBlastedDataList(&list);
  };
  R.explore(c, [&]() { run(-1); });
  for (long k = 0; k < total; k++) {
    R.explore(c, [&]() { run(k); });
  }
}
// with several threads: no result that the operator built directly with the requested settings cannot give
static void outcomes(mc::Runner& R, const Mat& m, const Lay& L, const Req& q, int T, int P) {
  static uint64_t seen[1 << 18]; static long nseen; nseen = 0; OpCfg o; if (!meaning(q, o)) abort();
  Vec r = vec(m.N(), 77), b = vec(m.N(), 78), x0 = vec(m.N(), 79); mock::options = options_of(q); mock::instead = nullptr; mock::fail_at = -1; mock::ranks = 1;
  for (int how = 0; how < (relaxes(q.t) ? 2 : 1); how++) for (int pass = 0; pass < 2; pass++) {
    mc::Cfg c; c.threads = T; c.preempt = P; if (pass == 0) nseen = 0; else std::sort(seen, seen + nseen);
    mc::Stats st = R.explore(c, [&]() {
      mock::failed = false; mock::calls = 0; In in(m, false); double *ra = dup(how ? b : r), *za = how ? dup(x0) : fresh<double>(m.N()); mc::set_threads(1);
      if (!how) for (int i = 0; i < m.N(); i++) za[i] = 7;
      if (pass == 0) { Op* op = make_op(in, o); op->compute(); mc::set_threads(T); if (how) { op->setApplyParams({0, 0, 0, false, 1}); op->apply_relax(ra, za); } else op->apply(ra, za);
        uint64_t h = mc::hash(za, m.N() * 8); mc::observe(h); bool dupl = false; for (long i = nseen - 1; i >= 0 && i > nseen - 64; i--) dupl |= seen[i] == h; if (!dupl) { if (nseen == 1 << 18) mc::fail("too many outcomes"); seen[nseen++] = h; } delete op; }
      else { ::Mat A = mock::mat(L.bs, m.n, L.bs > 1 ? MATSEQBAIJ : MATSEQAIJ, in.rp, in.ci, in.v, in.di, L.bs > 1); KSP k = mock::ksp(PCSHELL, A); Blasted_data_list list = newBlastedDataList();
        if (setup_blasted_stack(k, &list) || KSPSetUp(k)) mc::fail("set-up fails"); mc::set_threads(T);
        ::Vec rv = vec_of(ra, m.N()), zv = vec_of(za, m.N()); int its; PCRichardsonConvergedReason why; int e = 0;
        if (how) { if (!k->pc->richardson) mc::fail("relaxation is not offered"); e = k->pc->richardson(k->pc, rv, zv, zv, 0, 0, 0, 1, PETSC_FALSE, &its, &why); } else e = k->pc->apply(k->pc, rv, zv);
        if (e) mc::fail("application fails");
        uint64_t h = mc::hash(za, m.N() * 8); mc::observe(h);
        if (!mc::discovering() && !std::binary_search(seen, seen + nseen, h)) mc::fail("a result that no schedule gives on the requested operator");
        delete rv; delete zv; mock::destroy(k); destroyBlastedDataList(&list); mock::free_mat(A); }
      free(ra); free(za); in.free_all();
    });
    if (st.failed) return;
  }
}
int run(int argc, char** argv) {
  mc::Runner R(argc, argv, "C25");
  const bool th = R.thorough();
  static const Lay PL[3] = {{1, true, "aij"}, {4, false, "baij4"}, {5, false, "baij5"}};
  // a scalar matrix may have a block size of its own, and the vendor's formats share the data
  static const char* MT[2][3] = {{MATSEQAIJ, MATSEQAIJMKL, MATSEQAIJ}, {MATSEQBAIJ, MATSEQBAIJMKL, MATSEQBAIJ}};
  // every request
  for (const Lay& L : PL) for (int k = 0; k < NT; k++) for (int T = 1; T <= 2; T++) {
    if (!R.begin(mc::fmt("request/%s/%s/threads=%d", L.name, NAMES[k], T))) continue;
    for (int b : {-1, 1, 2, 3}) for (int a : {-1, 1, 2, 3}) for (int fi = 0; fi < 3; fi++) for (int ai = 0; ai < 2; ai++) for (int ch = 1; ch <= 3; ch++) for (int sc = 0; sc < 2; sc++) for (int info = 0; info < 2; info++) {
      if (L.bs > 1 && !th && (b + 2 * a + fi + ai + ch + sc + info) % 3) continue;
      Req q; q.t = TYPES[k]; q.build = b; q.apply = a; q.fi = fi; q.ai = ai; q.chunk = ch; q.scale = sc; q.info = info;
      request(R, L, q, T);
    }
  }
  for (const Lay& L : PL) for (int k = 0; k < NT; k++) for (int T = 2; T <= 3; T++) {
    if (L.bs > 1 && TYPES[k] == BLASTED_CSC_BGS) continue;
    if (!R.begin(mc::fmt("outcomes/%s/%s/threads=%d", L.name, NAMES[k], T))) continue;
    for (int v = 0; v < 4; v++) { Req q; q.t = TYPES[k]; q.build = 1; q.apply = 1; q.chunk = 1 + v / 2; q.ai = v % 2; q.scale = v % 2; if (!sweeps(q.t) && v) continue;
      outcomes(R, make(symm_pattern(3, 5), L.bs, L.row, 750), L, q, T, L.bs == 1 ? (th ? 3 : T == 2 ? 2 : 1) : (th && T == 2 ? 2 : 1)); }
  }
  // histories
  static const char* TREES[] = {"s", "b(s)", "a(s)", "k(s)", "k(b(s))", "b(k(s))", "m(s,s)", "m(j,s,s)", "g(b(s),s)", "m(a(s),k(s),b(s))", "b(m(s,b(s)))", "j", "m(s)"};
  for (const Lay& L : PL) for (auto tr : TREES) for (int k = 0; k < NT; k++) {
    if (L.bs > 1 && TYPES[k] == BLASTED_CSC_BGS) continue;
    if (!R.begin(mc::fmt("history/%s/%s/%s", L.name, tr, NAMES[k]))) continue;
    int ns = nshells(tr);
    for (int v = 0; v < 8; v++) {
      Req q; q.t = TYPES[k]; q.build = 2; q.apply = 2; q.chunk = 1 + v % 2; q.scale = v & 1; q.info = (v >> 1) & 1; q.fi = 2; q.ai = v & 1;
      g_two = (v ^ (v >> 1) ^ (v >> 2)) & 1;
      bool ext = v & 4; int again = (v + k) % 3;
      int depth = ns == 0 ? 0 : ns == 1 ? (th ? 5 : L.bs == 1 ? 4 : 3) : ns == 2 ? (th ? 4 : 3) : (th ? 3 : 2);
      if (v > 1 && !th) depth = std::min(depth, 2);
      history(R, tr, L, MT[L.bs > 1][v % 3], q, ext, depth, again, L.bs == 1 && v % 3 == 2 ? 3 : 0);
    }
  }
  g_two = false;
  // refusals: no shell preconditioner, distributed matrix, unsupported blocks, several subdomains, missing diagonal, unknown names
  if (R.begin("refusals")) {
    Mat m = make(symm_pattern(3, 5), 1, true, 740);
    struct { const char* what; const char* tree; const char* type; int bs, nblocks, missing; bool bad_name; bool bad; } C[] = {
      {"valid", "s", MATSEQAIJ, 1, 1, -1, false, false}, {"valid MKL matrix", "s", MATSEQAIJMKL, 1, 1, -1, false, false},
      {"distributed matrix", "s", MATMPIAIJ, 1, 1, -1, false, true}, {"distributed block matrix", "s", MATMPIBAIJ, 4, 1, -1, false, true},
      {"block size 2", "s", MATSEQBAIJ, 2, 1, -1, false, true}, {"block size 3", "s", MATSEQBAIJ, 3, 1, -1, false, true}, {"block size 6", "s", MATSEQBAIJ, 6, 1, -1, false, true}, {"block size 0", "s", MATSEQBAIJ, 0, 1, -1, false, true},
      {"several subdomains", "b(s)", MATSEQAIJ, 1, 2, -1, false, true}, {"several subdomains", "a(s)", MATSEQAIJ, 1, 3, -1, false, true}, {"several subdomains in a level", "m(s,b(s))", MATSEQAIJ, 1, 2, -1, false, true},
      {"missing diagonal", "s", MATSEQAIJ, 1, 1, 1, false, true}, {"missing first diagonal", "s", MATSEQAIJ, 1, 1, 0, false, true}, {"missing diagonal in a level", "m(s,s)", MATSEQAIJ, 1, 1, 2, false, true},
      {"unknown solver name", "s", MATSEQAIJ, 1, 1, -1, true, true}, {"unknown solver name in a level", "m(s,s)", MATSEQAIJ, 1, 1, -1, true, true}};
    for (auto& x : C) for (int k = 0; k < NT; k++) {
      mock::options = options_of([&]() { Req q; q.t = TYPES[k]; return q; }()); if (x.bad_name) mock::options[0].second += "x"; mock::fail_at = -1;
      mc::Cfg c; c.threads = 1;
      R.explore(c, [&]() {
        mc::trans_add(1); Lay L{x.bs, false, ""};
        In in(m, false); std::vector<In*> ins = {&in}; Tree t; size_t used = 0; const char* s = x.tree; 
        t.top = parse(s, ins, used, L, t, x.type); for (auto A : t.mats) { A->missing = x.missing; A->bs = x.bs; }
        std::function<void(KSP)> nb = [&](KSP h) { h->pc->nblocks = x.nblocks; for (int i = 0; i < h->pc->nsub; i++) nb(h->pc->sub[i]); }; nb(t.top);
        Blasted_data_list list = newBlastedDataList(); bool refused = false;
        try { refused = setup_blasted_stack(t.top, &list) != 0; for (auto h : t.shells) if (!refused && h->pc->setup) refused = h->pc->setup(h->pc) != 0; } catch (const std::exception&) { refused = true; }
        if (refused != x.bad) mc::fail(std::string(x.what) + (x.bad ? " is accepted" : " is refused"));
      });
    }
  }
  for (const Lay& L : PL) for (auto tr : TREES) for (int k : {0, 2, 3}) {
    if (!R.begin(mc::fmt("faults/%s/%s/%s", L.name, tr, NAMES[k]))) continue;
    Req q; q.t = TYPES[k]; q.info = true; faults(R, tr, L, q);
  }
  return R.finish();
}
}
int main(int argc, char** argv) { return ref::run(argc, argv); }
