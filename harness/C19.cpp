// ILU(0) of a reordered matrix
#include "ops.hpp"
#include "reorderingscaling.hpp"
#include "solverops_ilu0.hpp"
using namespace ref;
#include "wide.hpp"
using ref::Pat;
typedef std::vector<int> Perm;
struct Plan { std::vector<Perm> rp, cp; std::vector<Vec> rs, cs; };     // one entry per compute(); empty: none
struct RS : public ReorderingScaling<double,int,1> {
  const Plan* plan; size_t k = 0;
  void compute(const CRawBSRMatrix<double,int>& m) {
    size_t i = k++ % plan->rp.size();
    setOrdering(plan->rp[i].empty() ? nullptr : plan->rp[i].data(), plan->cp[i].empty() ? nullptr : plan->cp[i].data(), m.nbrows);
    if (!plan->rs.empty()) { rowscale = plan->rs[i]; colscale = plan->cs[i]; }
  }
};
static int at(const Perm& p, int i) { return p.empty() ? i : p[i]; }
// A with A(rp[i], cp[j]) = B(i, j)
static Mat scrambled(const Mat& B, const Perm& rp, const Perm& cp) {
  Mat m; m.n = B.n; m.bs = 1; std::vector<int> irp(B.n); for (int i = 0; i < B.n; i++) irp[at(rp, i)] = i;
  m.rp.push_back(0);
  for (int i = 0; i < B.n; i++) { std::vector<std::pair<int,int>> e; int o = irp[i]; for (int p = B.rp[o]; p < B.rp[o + 1]; p++) e.push_back({at(cp, B.ci[p]), p}); std::sort(e.begin(), e.end()); m.di.push_back(-1);
    for (auto& x : e) { if (x.first == i) m.di[i] = (int)m.ci.size(); m.ci.push_back(x.first); m.v.push_back(B.v[x.second]); } m.rp.push_back((int)m.ci.size()); }
  return m;
}
static Mat reordered(const Mat& A, const Perm& rp, const Perm& cp) {
  std::vector<int> icp(A.n); for (int j = 0; j < A.n; j++) icp[at(cp, j)] = j;
  Mat m; m.n = A.n; m.bs = 1; m.rp.push_back(0);
  for (int i = 0; i < A.n; i++) { int o = at(rp, i); std::vector<std::pair<int,int>> e; for (int p = A.rp[o]; p < A.rp[o + 1]; p++) e.push_back({icp[A.ci[p]], p}); std::sort(e.begin(), e.end()); m.di.push_back(-1);
    for (auto& x : e) { if (x.first == i) m.di[i] = (int)m.ci.size(); m.ci.push_back(x.first); m.v.push_back(A.v[x.second]); } m.rp.push_back((int)m.ci.size()); }
  return m;
}
static Vec want_of(const Mat& B, const Perm& rp, const Perm& cp, const Vec& b) {
  Vec t(B.n); for (int i = 0; i < B.n; i++) t[i] = b[at(rp, i)];
  Vec u = ilu_apply(B, true, t), x(B.n); for (int j = 0; j < B.n; j++) x[at(cp, j)] = u[j];
  return x;
}
struct Opt { int build = 1, apply = 1; bool tf = false, ta = false; int T = 1, P = 1, D = -1, dev = -1; FactInit fi = INIT_F_ORIGINAL; ApplyInit ai = INIT_A_ZERO; };
static void solve_case(mc::Runner& R, const Mat& B, const Perm& rp, const Perm& cp, const Plan& plan, const Opt& o, bool exactILU) {
  Mat A = scrambled(B, rp, cp); auto bs = rhs_set(A.n);
  std::vector<Vec> want; for (auto& b : bs) want.push_back(want_of(B, rp, cp, b));
  if (exactILU) { Dense D = A.dense(); for (size_t k = 0; k < bs.size(); k++) { Vec x = solve(D, bs[k]); for (int i = 0; i < A.n; i++) if (!close(x[i], want[k][i])) { fprintf(stderr, "reference inconsistent\n"); abort(); } } }
  mc::Cfg c; c.threads = o.T; c.preempt = o.P; c.delay = o.D; c.check_leaks = true; if (o.T == 1) c.schedules = false; c.deviations = o.dev;
  if (o.T > 1) { bs.resize(1); want.resize(1); }
  R.explore(c, [&]() {
    In in(A);
    { RS rs; rs.plan = &plan;
      ReorderedAsyncILU0_SRPreconditioner<double,int> op(in.storage(), &rs, o.build, o.apply, 1, o.fi, o.ai, o.tf, o.ta);
      if (op.dim() != A.n) mc::fail("wrong dimension");
      int times = o.T == 1 ? (int)plan.rp.size() + 1 : 1;
      for (int t = 0; t < times; t++) {
        op.compute(); mc::trans_add(1);
        // a later compute() may have chosen another ordering; with plans of one entry the system is the same one
        if (plan.rp.size() == 1 || t % plan.rp.size() == 0) {
          for (size_t k = 0; k < bs.size(); k++) {
            double *b = dup(bs[k]), *x = fresh<double>(A.n); mc::mark_readonly(b, A.n * 8);
            if (o.T > 1 && o.D >= 0 && mc::untracked_loops()) { mc::clear_readonly(); free(b); free(x); continue; }
            op.apply(b, x); 
            if (!(o.D >= 0 && mc::untracked_loops())) expect(x, want[k], "reordered solve");
            mc::observe(mc::hash(x, A.n * 8)); mc::trans_add(1);
            mc::clear_readonly(); free(b); free(x);
          }
        } else {
          const Perm &r2 = plan.rp[t % plan.rp.size()], &c2 = plan.cp[t % plan.rp.size()];
          Mat B2 = reordered(A, r2, c2);
          for (size_t k = 0; k < bs.size(); k++) { double *b = dup(bs[k]), *x = fresh<double>(A.n); op.apply(b, x); expect(x, want_of(B2, r2, c2, bs[k]), "solve after the ordering was updated", 1e-7); free(b); free(x); mc::trans_add(1); }
        }
        in.unchanged();
      } }
    in.free_all();
  });
}
static std::vector<Perm> perms(int n) { Perm p(n); for (int i = 0; i < n; i++) p[i] = i; std::vector<Perm> r; r.push_back(Perm()); do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C19");
  const bool th = R.thorough();
  for (int n = 1; n <= 4; n++) {
    auto ps = perms(n); long np = (long)ps.size();
    for (long q = 0; q < np * np; q++) {
      if (!R.begin(mc::fmt("sequential/n=%d/row=%ld/col=%ld", n, q / np, q % np))) continue;
      long NM = nmasks(n), step = n < 4 ? 1 : th ? 1 : 61;
      for (long k = n < 4 ? 0 : q % step; k < NM; k += step) {
        const Perm &rp = ps[q / np], &cp = ps[q % np];
        Mat B = make(pattern(n, k), 1, true, 1 + (int)(k % 3));
        Plan pl; pl.rp.push_back(rp); pl.cp.push_back(cp);
        if ((k + q) % 3 == 1) { Vec s(n), t(n); for (int i = 0; i < n; i++) { s[i] = 0.5 + i; t[i] = 2.0 / (i + 1); } pl.rs.push_back(s); pl.cs.push_back(t); }
        if (n > 1 && (k + q) % 2 == 0) {       // the ordering may be another one at the next compute(), provided the diagonal is still there
          Mat A = scrambled(B, rp, cp);
          for (long z = 0; z < np; z++) {
            Perm r2 = rp.empty() ? Perm() : ps[1 + (q + k + z) % (np - 1)], c2 = cp.empty() ? Perm() : ps[1 + (q * 3 + k + z * 5) % (np - 1)];
            Mat B2 = reordered(A, r2, c2); bool good = r2 != rp || c2 != cp; for (int i = 0; i < n; i++) if (B2.di[i] < 0 || B2.v[B2.di[i]] < 0.5) good = false;
            if (!good) continue; Mat f = ilu0(scaled(B2, scaling(B2))); for (int i = 0; i < n; i++) if (std::fabs(f.v[f.di[i]]) < 0.05) good = false;
            if (good) { pl.rp.push_back(r2); pl.cp.push_back(c2); if (!pl.rs.empty()) { pl.rs.push_back(pl.rs[0]); pl.cs.push_back(pl.cs[0]); } break; }
          }
        }
        Opt o; o.fi = k % 2 ? INIT_F_ORIGINAL : INIT_F_SGS; o.ai = (k / 2) % 2 ? INIT_A_JACOBI : INIT_A_ZERO; o.build = 1 + (int)(k % 2); o.apply = 1 + (int)(k / 2 % 2); o.tf = k % 3 == 0; o.ta = k % 5 == 0;
        solve_case(R, B, rp, cp, pl, o, k == NM - 1);
      }
    }
  }
  // larger systems on which ILU(0) is the exact factorisation
  for (int n : {7, 15, 40}) for (int kind = 0; kind < 6; kind++) {
    if (!R.begin(mc::fmt("large/n=%d/kind=%d", n, kind))) continue;
    Perm rp(n), cp(n); for (int i = 0; i < n; i++) { rp[i] = (i + kind) % n; cp[i] = kind % 2 ? n - 1 - i : (i + 2 * kind + 1) % n; } if (kind == 4) rp.clear(); if (kind == 5) cp.clear();
    Pat p = kind % 3 == 0 ? band_pattern(n, {-1, 1}) : kind % 3 == 1 ? band_pattern(n, {-3, -1}) : Pat(n);
    if (kind % 3 == 2) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) p[i].push_back(j);
    Plan pl; pl.rp.push_back(rp); pl.cp.push_back(cp); Opt o; solve_case(R, make(p, 1, true, 1), rp, cp, pl, o, true);
  }
  // sequential requests are honoured whatever the threads do; asynchronous ones converge under bounded delay
  for (int T : {2, 3}) for (int n = 2; n <= 3; n++) {
    auto ps = perms(n); long np = (long)ps.size();
    for (long q = 0; q < np * np; q++) {
      if (!th && q % 5 != 1 && n == 3) continue;
      if (!R.begin(mc::fmt("threads/T=%d/n=%d/row=%ld/col=%ld", T, n, q / np, q % np))) continue;
      for (long k = n == 2 ? 0 : q % 7; k < nmasks(n); k += n == 2 ? 1 : th ? 3 : 13) {
        Mat B = make(pattern(n, k), 1, true, 1); Plan pl; pl.rp.push_back(ps[q / np]); pl.cp.push_back(ps[q % np]);
        Opt o; o.T = T; o.P = 1; solve_case(R, B, ps[q / np], ps[q % np], pl, o, false);        // both sequential
        Opt a = o; a.ta = true; a.D = 0; a.apply = std::max(lower_depth(B), upper_depth(B)); solve_case(R, B, ps[q / np], ps[q % np], pl, a, false);
        if (T == 2) { Opt f = o; f.tf = true; f.D = 0; f.build = entry_depth(B); solve_case(R, B, ps[q / np], ps[q % np], pl, f, false); }
      }
    }
  }
  // wide inputs; sequential requests with teams of several sizes
  for (auto& F : families(1)) for (int k = 0; k < 6; k++) {
    if (!R.begin(mc::fmt("wide/%s/%d", F.name.c_str(), k))) continue;
    if (F.vc == VC_TINY || F.vc == VC_HUGE || F.vc == VC_NEG) continue;   // symmetric scaling needs positive diagonal entries
    Mat B = make(F, 1, true, k); int n = B.n; Perm a(n), b(n); int st = n % 5 ? 5 : n % 7 ? 7 : 11;
    for (int i = 0; i < n; i++) { a[i] = k % 3 == 0 ? n - 1 - i : k % 3 == 1 ? (int)((long)i * st % n) : (i ^ 1) < n ? (i ^ 1) : i; b[i] = k % 2 ? (i + n / 2) % n : (int)((long)i * st + 3) % n; }
    if (k == 2) { std::swap(a[0], a[n - 1]); std::swap(b[0], b[n / 2]); }
    if (k == 3) a.clear(); if (k == 4) b.clear(); if (k == 5) b = a;
    Plan pl; pl.rp.push_back(a); pl.cp.push_back(b);
    if (k % 2) { Vec s(n), t(n); for (int i = 0; i < n; i++) { s[i] = (i % 2 ? -1 : 1) * (0.5 + i % 7); t[i] = 2.0 / (i % 5 + 1); } pl.rs.push_back(s); pl.cs.push_back(t); }
    Opt o; o.dev = 0; for (int T : {1, 2, 5, 17}) { if (F.big && T > 1 && T != 5) continue; o.T = T; solve_case(R, B, a, b, pl, o, false); }
  }
  return R.finish();
}
