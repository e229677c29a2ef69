// Jacobi preconditioner and relaxation
#include "ops.hpp"
#include "wide.hpp"
using namespace ref;
struct Tol { double r, a, d; bool c; int maxits; };
static Vec jac(const Mat& m, const Vec& b, Vec x, const Tol& t, std::vector<double>* norms = nullptr) {
  double refn = 1;
  for (int k = 0; k < t.maxits; k++) {
    Vec y(x.size());
    for (int i = 0; i < m.n; i++) { Vec q = x; gs_row(m, i, b, q); for (int a = 0; a < m.bs; a++) y[i*m.bs+a] = q[i*m.bs+a]; }
    double d = 0; for (size_t i = 0; i < x.size(); i++) d += (y[i]-x[i])*(y[i]-x[i]); d = std::sqrt(d);
    x = y; if (norms) norms->push_back(d);
    if (t.c) { if (k == 0) refn = d; if (d < t.a || d / refn < t.r || d / refn > t.d) break; }
  }
  return x;
}
// tolerances immediately below and above each of the first norms of the update
static void cuts(std::vector<Tol>& ts, const std::vector<double>& nm, int upto, int maxits) {
  for (int q = 0; q < upto && q < (int)nm.size(); q++) {
    if (!(nm[q] > 1e-9 * nm[0])) break;
    bool apart = true; for (size_t k = 0; k < nm.size(); k++) if ((int)k != q && std::fabs(nm[k] - nm[q]) < 1e-4 * nm[q]) apart = false;
    if (!apart) continue;
    for (double f : {1 - 1e-6, 1 + 1e-6}) {
      ts.push_back({0, f * nm[q], 1e300, true, maxits});
      if (q) { ts.push_back({f * nm[q] / nm[0], 0, 1e300, true, maxits}); ts.push_back({0, 0, f * nm[q] / nm[0], true, maxits}); }
    }
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C05");
  const bool th = R.thorough();
  long growing[2] = {0, 0};
  for (const Lay& L : LAYS) for (int n = 1; n <= (L.bs == 1 ? 4 : 3); n++) {
    long N = nmasks(n), step = n == 4 ? (th ? 1 : 29) : n == 3 && L.bs > 1 && !th ? 3 : 1;
    for (long b = 0; b < N; b += 8 * step) for (int T = 1; T <= 3; T++) {
      if (!R.begin(mc::fmt("%s/n=%d/masks=%ld+/threads=%d", L.name, n, b, T))) continue;
      for (long k = b; k < N && k < b + 8 * step; k += step) for (int weak = 0; weak < 2; weak++) {
        Mat m = make(pattern(n, k), L.bs, L.row, (int)k + 111);
        if (weak) for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) if (p != m.di[i]) for (int a = 0; a < L.bs * L.bs; a++) m.v[(size_t)p * L.bs * L.bs + a] *= L.bs == 1 ? 14 : 25;   // slow or divergent
        Vec rhs = vec(m.N(), 13), x0 = vec(m.N(), 14);
        std::vector<double> nm; jac(m, rhs, x0, {0, 0, 0, false, 5}, &nm);
        std::vector<Tol> ts; for (int its = 0; its <= 3; its++) ts.push_back({1e30, 1e30, 0, false, its});   // tolerances not checked: must be ignored
        ts.push_back({0, 0, 1e300, true, 3});
        for (size_t q = 0; q < 3 && q + 1 < nm.size(); q++) {
          if (!(nm[q] > 1e-7)) break;   // a converged iteration: further norms are rounding noise
          double lo = std::min(nm[q], nm[q+1]), hi = std::max(nm[q], nm[q+1]); if (!(hi > lo * 1.001)) continue;
          double mid = (lo + hi) / 2;
          ts.push_back({0, mid, 1e300, true, 5});                 // absolute
          ts.push_back({mid / nm[0], 0, 1e300, true, 5});         // relative to the first update
          ts.push_back({0, 0, mid / nm[0], true, 5});             // divergence
          if (mid > nm[0]) growing[L.bs > 1]++;
        }
        if (T == 1) cuts(ts, nm, 4, 5);
        // a tolerance of exactly one: the first update is neither smaller nor larger than itself
        bool clear = nm[0] > 1e-7; for (size_t q = 1; q < nm.size(); q++) if (std::fabs(nm[q] - nm[0]) < 1e-4 * nm[0]) clear = false;
        if (clear && T == 1) { ts.push_back({1, 0, 1e300, true, 5}); ts.push_back({0, 0, 1, true, 5}); }
        mc::Cfg c; c.threads = T; c.preempt = L.bs == 1 ? 2 : 1;
        if (T > 1) { c.preempt = (k + weak) % (th ? 2 : 7) == 0 ? c.preempt : 1; if (!th && n >= 3 && (k / step + weak + T) % 4) continue; }
        Vec wantz = jacobi_apply(m, rhs);
        R.explore(c, [&]() {
          In in(m);
          OpCfg o; o.type = BLASTED_JACOBI;
          Op* op = make_op(in, o);
          op->compute();
          double* z = fresh<double>(m.N());
          const double* bb = ro(rhs);
          op->apply(bb, z);
          expect(z, wantz, "Jacobi apply");
          mc::observe(mc::hash(z, m.N() * 8));
          free(z); delete op;
        });
        int ti = 0;
        for (auto& t : ts) {
          ti++;
          Vec want = jac(m, rhs, x0, t);
          mc::Cfg cc = c; cc.preempt = T > 1 ? 1 : 0;
          if (T == 3 && (k + weak + ti) % 3) continue;
          if (T > 1 && n >= 3 && !th && (k / 4 + ti) % 4) continue;
          R.explore(cc, [&]() {
            In in(m);
            OpCfg o; o.type = BLASTED_JACOBI; o.relax = true;
            Op* op = make_op(in, o);
            SolveParams<double> sp; sp.rtol = t.r; sp.atol = t.a; sp.dtol = t.d; sp.ctol = t.c; sp.maxits = t.maxits;
            op->setApplyParams(sp);
            op->compute();
            if (!op->relaxationAvailable()) mc::fail("Jacobi relaxation reported as unavailable");
            double* x = dup(x0);
            op->apply_relax(ro(rhs), x);
            expect(x, want, mc::fmt("Jacobi relaxation rtol=%g atol=%g dtol=%g ctol=%d maxits=%d", t.r, t.a, t.d, t.c, t.maxits).c_str(), 1e-8);
            mc::observe(mc::hash(x, m.N() * 8));
            free(x); delete op;
          });
        }
      }
    }
  }
  // long and dense rows, many rows, unusual values, large teams
  for (const Lay& L : LAYS) for (auto& F : families(L.bs)) {
    if (!R.begin(mc::fmt("wide/%s/%s", L.name, F.name.c_str()))) continue;
    Mat m = make(F, L.bs, L.row, 57); Vec rhs = times(vec(m.N(), 55), unit(F.vc)), x0 = vec(m.N(), 56), wantz = jacobi_apply(m, rhs);
    std::vector<double> nm; jac(m, rhs, x0, {0, 0, 0, false, 5}, &nm); std::vector<Tol> ts = {{1e30, 1e30, 0, false, 2}, {0, 0, 1e300, true, 3}};
    for (int q = 0; q < 3; q++) { double lo = std::min(nm[q], nm[q+1]), hi = std::max(nm[q], nm[q+1]); if (!(lo > 1e-7 && hi > lo * 1.001)) continue; double mid = (lo + hi) / 2; ts.push_back({0, mid, 1e300, true, 5}); ts.push_back({mid / nm[0], 0, 1e300, true, 5}); ts.push_back({0, 0, mid / nm[0], true, 5}); }
    std::vector<Tol> tight; cuts(tight, nm, 3, 5);
    for (int T : {1, 2, 5, 17}) { if (T == 1) ts.insert(ts.end(), tight.begin(), tight.end()); if (T == 2) ts.resize(ts.size() - tight.size()); if (F.big && T != 1 && T != 5) continue; mc::Cfg c; c.threads = T; c.preempt = 0; c.deviations = T < 5 && F.pat.size() < 10 ? 1 : 0;
      for (size_t q = 0; q <= ts.size(); q++) { bool rel = q < ts.size(); if (rel && q > 2 && T > 5) continue; Tol t = rel ? ts[q] : ts[0]; Vec want = rel ? jac(m, rhs, x0, t) : wantz;
        R.explore(c, [&]() { In in(m); OpCfg o; o.type = BLASTED_JACOBI; o.relax = rel; Op* op = make_op(in, o); SolveParams<double> sp; sp.rtol = t.r; sp.atol = t.a; sp.dtol = t.d; sp.ctol = t.c; sp.maxits = t.maxits; op->setApplyParams(sp); op->compute();
          double* x = rel ? dup(x0) : fresh<double>(m.N()); if (rel) op->apply_relax(ro(rhs), x); else op->apply(ro(rhs), x); expect(x, want, rel ? mc::fmt("Jacobi relaxation rtol=%g atol=%g dtol=%g ctol=%d maxits=%d", t.r, t.a, t.d, t.c, t.maxits).c_str() : "Jacobi apply", 1e-8); mc::observe(mc::hash(x, m.N() * 8)); free(x); delete op; }); }
    }
  }
  // many iterations: slowly converging and slowly diverging
  for (const Lay& L : LAYS) for (int slow = 0; slow < 2; slow++) for (int T = 1; T <= 2; T++) {
    if (!R.begin(mc::fmt("many/%s/%s/threads=%d", L.name, slow ? "growing" : "decaying", T))) continue;
    Mat m = make(band_pattern(6, {-2, -1, 1, 3}), L.bs, L.row, 58);
    Vec rhs = vec(m.N(), 57), x0 = vec(m.N(), 58); std::vector<double> nm; double f = 1;
    for (int it = 0; it < 60; it++) {     // scale the off-diagonal part until the updates shrink (or grow) slowly
      Mat q = m; for (int i = 0; i < q.n; i++) for (int p = q.rp[i]; p < q.rp[i + 1]; p++) if (p != q.di[i]) for (int a = 0; a < L.bs * L.bs; a++) q.v[(size_t)p * L.bs * L.bs + a] *= f;
      nm.clear(); jac(q, rhs, x0, {0, 0, 0, false, 40}, &nm); double rate = nm[39] / nm[30];
      if (slow ? rate > 2 : rate > 0.3) { m = q; break; } f *= 1.1;
    }
    std::vector<Tol> ts; for (int its : {6, 10, 17, 40, 70, 130}) { ts.push_back({1e30, 1e30, 0, false, its}); ts.push_back({0, 0, 1e300, true, its}); } cuts(ts, nm, 36, 40);
    mc::Cfg c; c.threads = T; c.preempt = 0; c.deviations = 0;
    for (auto& t : ts) { Vec want = jac(m, rhs, x0, t);
      R.explore(c, [&]() { In in(m); OpCfg o; o.type = BLASTED_JACOBI; o.relax = true; Op* op = make_op(in, o); SolveParams<double> sp; sp.rtol = t.r; sp.atol = t.a; sp.dtol = t.d; sp.ctol = t.c; sp.maxits = t.maxits; op->setApplyParams(sp); op->compute();
        double* x = dup(x0); op->apply_relax(ro(rhs), x); expect(x, want, mc::fmt("Jacobi relaxation rtol=%g atol=%g dtol=%g ctol=%d maxits=%d", t.r, t.a, t.d, t.c, t.maxits).c_str(), 1e-8); mc::observe(mc::hash(x, m.N() * 8)); free(x); delete op; }); }
    R.note("tolerances in long relaxations", (long)ts.size());
  }
  R.note("divergence tests triggered after growth (scalar)", growing[0]); R.note("divergence tests triggered after growth (block)", growing[1]);
  return R.finish();
}
