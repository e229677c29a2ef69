// incomplete factors: recovered from an operator, initial guesses, remainders
#pragma once
#include "ops.hpp"
namespace ref {
/* The factors actually obtained, recovered from the operator's observable action: the sequential application is
 * exactly (LU)^-1, and the block LU decomposition of its inverse with unit block diagonal in L is unique. */
struct Fac { Dense L, U; };
inline Fac factors(const Op* op, const Mat& m, bool scale) {
  int N = m.N(), bs = m.bs; Dense W(N);
  for (int c = 0; c < N; c++) {
    Vec e(N, 0.0); e[c] = 1; double* r = dup(e); double* z = fresh<double>(N);
    op->apply(r, z); for (int i = 0; i < N; i++) W(i,c) = z[i];
    free(r); free(z);
  }
  Vec s = scale ? scaling(m) : Vec(N, 1.0);
  for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) W(i,j) /= s[i] * s[j];
  Fac f; f.U = inverse(W); f.L = Dense(N); for (int i = 0; i < N; i++) f.L(i,i) = 1;
  auto blk = [&](const Dense& D, int i, int j) { Dense B(bs); for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) B(a,b) = D(i*bs+a, j*bs+b); return B; };
  auto put = [&](Dense& D, int i, int j, const Dense& B) { for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) D(i*bs+a, j*bs+b) = B(a,b); };
  for (int k = 0; k < m.n; k++) { Dense inv = inverse(blk(f.U, k, k));
    for (int i = k + 1; i < m.n; i++) { Dense l = mul(blk(f.U, i, k), inv); put(f.L, i, k, l); put(f.U, i, k, Dense(bs));
      for (int j = k + 1; j < m.n; j++) { Dense x = blk(f.U, i, j), p = mul(l, blk(f.U, k, j)); for (size_t z = 0; z < x.a.size(); z++) x.a[z] -= p.a[z]; put(f.U, i, j, x); } } }
  return f;
}
inline double remainder(const Mat& As, const Fac& f) { Dense P = mul(f.L, f.U); double s = 0; int bs = As.bs; for (int i = 0; i < As.n; i++) for (int p = As.rp[i]; p < As.rp[i+1]; p++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) s += std::fabs(As.at(p,a,b) - P(i*bs+a, As.ci[p]*bs+b)); return s; }
inline Fac initial(const Mat& As, FactInit fi) {
  int bs = As.bs; Fac f; f.L = Dense(As.N()); f.U = Dense(As.N()); for (int i = 0; i < As.N(); i++) f.L(i,i) = 1;
  if (fi == INIT_F_ZERO) return f;
  for (int i = 0; i < As.n; i++) for (int p = As.rp[i]; p < As.rp[i+1]; p++) { int j = As.ci[p]; Dense B = blockof(As, p); if (j < i && fi == INIT_F_SGS) B = mul(B, inverse(blockof(As, As.di[j])));
    for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) (j < i ? f.L : f.U)(i*bs+a, j*bs+b) = B(a,b); }
  return f;
}
// apply given factors
inline Vec fac_apply(const Fac& f, const Mat& m, bool scale, Vec r) {
  Vec s = scale ? scaling(m) : Vec(m.N(), 1.0); for (int i = 0; i < m.N(); i++) r[i] *= s[i];
  r = solve(f.U, solve(f.L, r)); for (int i = 0; i < m.N(); i++) r[i] *= s[i]; return r;
}
inline Fac exact_factors(const Mat& As) {
  Mat g = ilu0(As); Fac f; f.L = Dense(As.N()); f.U = Dense(As.N()); int bs = As.bs; for (int i = 0; i < As.N(); i++) f.L(i,i) = 1;
  for (int i = 0; i < g.n; i++) for (int p = g.rp[i]; p < g.rp[i+1]; p++) for (int a = 0; a < bs; a++) for (int b = 0; b < bs; b++) (g.ci[p] < i ? f.L : f.U)(i*bs+a, g.ci[p]*bs+b) = g.at(p,a,b);
  return f;
}
} // namespace ref
