/* Operators through the public factory */
#pragma once
#include "ref.hpp"
#include "solverfactory.hpp"
#include <memory>
namespace ref {
using namespace blasted;
typedef SRPreconditioner<double, int> Op;
struct OpCfg {
  BlastedSolverType type; int build = 1, apply = 1; FactInit fi = INIT_F_ORIGINAL; ApplyInit ai = INIT_A_ZERO;
  bool scale = false; int chunk = 1; bool info = false; bool relax = false;
  bool tf = false, ta = false;      // reordered operators only: threaded factorisation / application
};
inline Op* make_op(SRMatrixStorage<const double, const int>&& st, int bs, bool rowmajor, const OpCfg& c) {
  AsyncSolverSettings s;
  s.prectype = c.type; s.bs = bs; s.blockstorage = rowmajor ? RowMajor : ColMajor; s.relax = c.relax; s.thread_chunk_size = c.chunk;
  s.scale = c.scale; s.nbuildsweeps = c.build; s.napplysweeps = c.apply; s.fact_inittype = c.fi; s.apply_inittype = c.ai; s.compute_precinfo = c.info;
  SRFactory<double, int> F;
  return F.create_preconditioner(std::move(st), s);
}
inline Op* make_op(const In& in, const OpCfg& c) { return make_op(in.storage(), in.m.bs, in.m.rowmajor, c); }
struct Lay { int bs; bool row; const char* name; };
static const Lay LAYS[4] = {{1, true, "csr"}, {4, true, "bsr4row"}, {4, false, "bsr4col"}, {5, false, "bsr5col"}};
// test right-hand sides: unit vectors for small systems, generic ones otherwise
inline std::vector<Vec> rhs_set(int N) {
  std::vector<Vec> r; r.push_back(vec(N, 5));
  if (N <= 4) for (int i = 0; i < N; i++) { Vec e(N, 0.0); e[i] = 1; r.push_back(e); } else r.push_back(vec(N, 6));
  return r;
}
inline void apply_expect(const Op* op, const std::vector<Vec>& rs, const std::vector<Vec>& want, const char* what, double tol = 1e-9) {
  for (size_t k = 0; k < rs.size(); k++) {
    int N = (int)rs[k].size();
    double* r = dup(rs[k]); mc::mark_readonly(r, N * 8);
    double* z = fresh<double>(N);
    op->apply(r, z);
    expect(z, want[k], what, tol);
    mc::observe(mc::hash(z, N * 8));
    free(z);   // r stays protected until the execution ends
  }
}
// longest dependency chain over the entries of an ILU(0) factorisation
inline int entry_depth(const Mat& m) {
  std::vector<int> d(m.nnz(), 1); int mx = 1;
  for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) {
    int j = m.ci[p], e = 1;
    for (int q = m.rp[i]; q < m.rp[i + 1]; q++) { int k = m.ci[q]; if (k >= std::min(i, j)) continue; int t = m.find(k, j); if (t >= 0) e = std::max(e, 1 + std::max(d[q], d[t])); }
    if (j < i) e = std::max(e, 1 + d[m.di[j]]);
    d[p] = e; mx = std::max(mx, e);
  }
  return mx;
}
} // namespace ref
namespace ref {
/* sweeps that are enough for a chain of `depth` dependent updates when no thread runs more than D sweep
 * instances ahead (see DESIGN.md, "bounded delay") */
inline int enough(int depth, int D) { return (depth - 1) * (2 * D + 1) + D + 1; }

/* One sweep, every row written once: whatever the interleaving, each row must be the row update evaluated
 * with every unknown it depends on being either its initial or its final value.
 * got = result, init = initial iterate; D_i got_i = rhs_i - sum_p C_p x_p. */
struct RowSys { int bs = 1; std::vector<std::vector<int>> dep; std::vector<std::vector<Vec>> coef; std::vector<Vec> diag; Vec rhs; };
inline bool row_possible(const RowSys& S, const double* got, const Vec& init, int i, double tol = 1e-9) {
  // every component may have read its own mix (block products load components repeatedly)
  int bs = S.bs, nd = (int)S.dep[i].size() * bs; if (nd > 20) return true;
  for (int a = 0; a < bs; a++) {
    double lhs = 0; for (int b = 0; b < bs; b++) lhs += S.diag[i][a * bs + b] * got[i * bs + b];
    bool ok = false;
    for (long m = 0; m < (1L << nd) && !ok; m++) {
      double t = S.rhs[i * bs + a];
      for (size_t d = 0; d < S.dep[i].size(); d++) for (int b = 0; b < bs; b++) { int g = S.dep[i][d] * bs + b; t -= S.coef[i][d][a * bs + b] * ((m >> (d * bs + b) & 1) ? init[g] : got[g]); }
      ok = close(t, lhs, tol);
    }
    if (!ok) return false;
  }
  return true;
}
// kind 0: strictly lower part with unit diagonal, 1: lower with diagonal, 2: upper with diagonal, 3: all off-diagonal entries
inline RowSys row_system(const Mat& A, int kind, const Vec& rhs) {
  RowSys S; S.bs = A.bs; S.rhs = rhs; int bs = A.bs; S.dep.resize(A.n); S.coef.resize(A.n);
  for (int i = 0; i < A.n; i++) {
    for (int p = A.rp[i]; p < A.rp[i + 1]; p++) { int j = A.ci[p]; if (j == i || (kind < 2 && j > i) || (kind == 2 && j < i)) continue;
      S.dep[i].push_back(j); S.coef[i].push_back(blockof(A, p).a); }
    Dense I(bs); for (int a = 0; a < bs; a++) I(a,a) = 1;
    S.diag.push_back(kind == 0 ? I.a : blockof(A, A.di[i]).a);
  }
  return S;
}
inline void expect_one_sweep(const RowSys& S, const double* got, const Vec& init, const char* what) {
  int n = (int)S.dep.size(); for (int i = 0; i < n; i++) if (!row_possible(S, got, init, i)) mc::fail(mc::fmt("%s: row %d is %.12g after one sweep, which no mix of old and new values explains", what, i, got[i * S.bs]));
}
/* every vector one sweep over a triangular system may leave, whatever the interleaving (dependencies point to rows handled
 * earlier in `order`; each use of a component is its initial or its final value).  Empty: too many. */
inline std::vector<Vec> one_sweep_results(const RowSys& S, const Vec& init, bool upward) {
  int n = (int)S.dep.size(), bs = S.bs; std::vector<Vec> cur(1, init);
  for (int k = 0; k < n; k++) { int i = upward ? n - 1 - k : k; std::vector<Vec> nxt;
    Dense D(bs); D.a = S.diag[i];
    for (const Vec& v : cur) {
      std::vector<Vec> t(1, Vec());       // right-hand sides of the row, component by component
      for (int a = 0; a < bs; a++) {
        std::vector<std::pair<int, double>> nz; for (size_t d = 0; d < S.dep[i].size(); d++) for (int b = 0; b < bs; b++) if (S.coef[i][d][a * bs + b] != 0) nz.push_back({S.dep[i][d] * bs + b, S.coef[i][d][a * bs + b]});
        if (nz.size() > 6) return {};
        std::vector<double> vals; for (long m = 0; m < (1L << nz.size()); m++) { double x = S.rhs[i * bs + a]; for (size_t q = 0; q < nz.size(); q++) x -= nz[q].second * ((m >> q & 1) ? init[nz[q].first] : v[nz[q].first]); if (std::find(vals.begin(), vals.end(), x) == vals.end()) vals.push_back(x); }
        std::vector<Vec> u; for (auto& p : t) for (double x : vals) { u.push_back(p); u.back().push_back(x); } t.swap(u);
        if (t.size() * cur.size() > 4096) return {};
      }
      for (auto& p : t) { Vec w = v, s = solve(D, p); for (int a = 0; a < bs; a++) w[i * bs + a] = s[a]; nxt.push_back(w); if (nxt.size() > 4096) return {}; }
    }
    cur.swap(nxt);
  }
  return cur;
}
} // namespace ref
