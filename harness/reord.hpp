// A reordered ILU(0) operator with the reordering object it uses, as one operator
#pragma once
#include "ops.hpp"
#include "reorderingscaling.hpp"
#include "solverops_ilu0.hpp"
namespace ref {
// symmetric reversal of the rows and columns, or a rotation
struct RevRS : public blasted::ReorderingScaling<double,int,1> {
  int rot = 0;
  void compute(const blasted::CRawBSRMatrix<double,int>& m) {
    std::vector<int> p(m.nbrows); for (int i = 0; i < m.nbrows; i++) p[i] = rot ? (i + rot) % m.nbrows : m.nbrows - 1 - i;
    setOrdering(p.data(), p.data(), m.nbrows);
  }
};
struct RevHolder { RevRS rs; };
struct ReordOp : private RevHolder, public blasted::ReorderedAsyncILU0_SRPreconditioner<double,int> {
  ReordOp(const In& in, const OpCfg& o, int rot = 0) : blasted::ReorderedAsyncILU0_SRPreconditioner<double,int>(in.storage(), &rs, o.build, o.apply, o.chunk, o.fi, o.ai, o.tf, o.ta) { rs.rot = rot; }
};
// what it must return
inline Vec reord_apply(const Mat& A, const Vec& r, int rot = 0) {
  int n = A.n; std::vector<int> p(n), ip(n); for (int i = 0; i < n; i++) p[i] = rot ? (i + rot) % n : n - 1 - i;
  for (int i = 0; i < n; i++) ip[p[i]] = i;
  Mat m; m.n = n; m.bs = 1; m.rp.push_back(0);
  for (int i = 0; i < n; i++) { std::vector<std::pair<int,int>> e; for (int q = A.rp[p[i]]; q < A.rp[p[i] + 1]; q++) e.push_back({ip[A.ci[q]], q}); std::sort(e.begin(), e.end()); m.di.push_back(-1);
    for (auto& x : e) { if (x.first == i) m.di[i] = (int)m.ci.size(); m.ci.push_back(x.first); m.v.push_back(A.v[x.second]); } m.rp.push_back((int)m.ci.size()); }
  Vec t(n), z(n); for (int i = 0; i < n; i++) t[i] = r[p[i]];
  Vec u = ilu_apply(m, true, t); for (int j = 0; j < n; j++) z[p[j]] = u[j];
  return z;
}
}
