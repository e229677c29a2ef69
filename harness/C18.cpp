// Reordering and scaling of matrices and vectors
#include "ref.hpp"
#include "reorderingscaling.hpp"
#include "blockmatrices.hpp"
#include <memory>
using namespace ref;
using namespace blasted;
#include "wide.hpp"
using ref::Pat;
typedef std::vector<int> Perm;
template <int bs> struct RS : public ReorderingScaling<double,int,bs> {
  void compute(const CRawBSRMatrix<double,int>&) {}
  void scales(const Vec* r, const Vec* c) { if (r) this->rowscale = *r; if (c) this->colscale = *c; }
};
struct Job { const Perm *rp = 0, *cp = 0; const Vec *rs = 0, *cs = 0; bool scalefirst = true; };
// B(i,j) = (R A C)(rp[i], cp[j]), rows sorted
static Mat transformed(const Mat& A, const Job& q) {
  Mat m; m.n = A.n; m.bs = A.bs; m.rowmajor = A.rowmajor; m.rp.push_back(0); int b2 = A.bs * A.bs;
  std::vector<int> icp(A.n); for (int j = 0; j < A.n; j++) icp[q.cp ? (*q.cp)[j] : j] = j;
  for (int i = 0; i < A.n; i++) {
    int o = q.rp ? (*q.rp)[i] : i; std::vector<std::pair<int,int>> e;
    for (int p = A.rp[o]; p < A.rp[o + 1]; p++) e.push_back({icp[A.ci[p]], p});
    std::sort(e.begin(), e.end()); m.di.push_back(-1);
    for (auto& x : e) { if (x.first == i) m.di[i] = (int)m.ci.size(); m.ci.push_back(x.first); for (int k = 0; k < b2; k++) m.v.push_back(A.v[(size_t)x.second * b2 + k] * (q.rs ? (*q.rs)[o] : 1.0) * (q.cs ? (*q.cs)[A.ci[x.second]] : 1.0)); }
    m.rp.push_back((int)m.ci.size());
  }
  return m;
}
static void same(const Mat& w, const int* rp, const int* ci, const double* v, const int* di, const char* what) {
  for (int i = 0; i <= w.n; i++) if (rp[i] != w.rp[i]) mc::fail(mc::fmt("%s: row pointer %d is %d, should be %d", what, i, rp[i], w.rp[i]));
  for (int p = 0; p < w.nnz(); p++) if (ci[p] != w.ci[p]) mc::fail(mc::fmt("%s: column of entry %d is %d, should be %d", what, p, ci[p], w.ci[p]));
  for (size_t k = 0; k < w.v.size(); k++) if (!close(v[k], w.v[k], 1e-13)) mc::fail(mc::fmt("%s: value %zu is %.15g, should be %.15g", what, k, v[k], w.v[k]));
  for (int i = 0; i < w.n; i++) if (w.di[i] >= 0 && di[i] != w.di[i]) mc::fail(mc::fmt("%s: diagonal position of row %d is %d, should be %d", what, i, di[i], w.di[i]));
}
// what happened to the object before: another ordering of another length, or the two orderings set by separate calls
static const std::vector<Perm>* g_before = nullptr; static bool g_split = false;
template <int bs> static void setup(RS<bs>& rs, const Job& q, int n) {
  if (g_before) for (auto& p : *g_before) { Perm o(p); std::reverse(o.begin(), o.end()); rs.setOrdering(q.rp ? p.data() : nullptr, q.cp ? o.data() : nullptr, (int)p.size()); }
  if (g_split && q.rp && q.cp) { bool first = (*q.rp)[0] % 2; if (first) rs.setOrdering(q.rp->data(), nullptr, n); rs.setOrdering(nullptr, q.cp->data(), n); if (!first) rs.setOrdering(q.rp->data(), nullptr, n); }
  else rs.setOrdering(q.rp ? q.rp->data() : nullptr, q.cp ? q.cp->data() : nullptr, n); rs.scales(q.rs, q.cs); if (rs.isRowReordering() != (q.rp != nullptr)) mc::fail("isRowReordering is wrong"); }
template <int bs> static void raw_part(const Mat& A, const Mat& B, const Job& q, bool fwd) {   // few parallel regions: every hand-out order of the chunks is explored
  const Mat &X = fwd ? A : B, &Y = fwd ? B : A; In in(X, false);
  { RawBSRMatrix<double,int> m(in.rp, in.ci, in.v, in.di, in.rp + 1, A.n, A.nnz(), A.nnz());
    RS<bs> rs; setup(rs, q, A.n);
    if (fwd) { rs.applyScaling(m, FORWARD); rs.applyOrdering(m, FORWARD); } else { rs.applyOrdering(m, INVERSE); rs.applyScaling(m, INVERSE); }
    same(Y, in.rp, in.ci, in.v, in.di, fwd ? "transformed matrix" : "restored matrix"); mc::observe(mc::hash(Y.ci.data(), Y.ci.size() * 4)); mc::trans_add(2); }
  in.free_all();
}
template <int bs> static void raw(const Mat& A, const Mat& B, const Job& q) {
  In in(A, false);
  { RawBSRMatrix<double,int> m(in.rp, in.ci, in.v, in.di, in.rp + 1, A.n, A.nnz(), A.nnz());
    RS<bs> rs; setup(rs, q, A.n);
    rs.applyScaling(m, FORWARD); rs.applyOrdering(m, FORWARD);
    same(B, in.rp, in.ci, in.v, in.di, "transformed matrix");
    rs.applyOrdering(m, INVERSE); rs.applyScaling(m, INVERSE);
    same(A, in.rp, in.ci, in.v, in.di, "restored matrix");
    rs.applyOrdering(m, FORWARD); rs.applyScaling(m, FORWARD); rs.applyScaling(m, INVERSE); rs.applyOrdering(m, INVERSE);   // scaling of the reordered matrix
    same(A, in.rp, in.ci, in.v, in.di, "matrix restored in the other order");
    mc::observe(mc::hash(B.ci.data(), B.ci.size() * 4)); mc::trans_add(4); }
  in.free_all();
}
template <int bs> static void vectors(const Mat& A, const Job& q) {
  int N = A.N(), n = A.n; Vec x = vec(N, 3);
  RS<bs> rs; setup(rs, q, n);
  for (int d = 0; d < 2; d++) {
    RSApplyDir dir = d ? COLUMN : ROW; const Perm* p = d ? q.cp : q.rp; const Vec* s = d ? q.cs : q.rs;
    double* v = dup(x);
    Vec w = x; for (int i = 0; i < n; i++) for (int k = 0; k < bs; k++) w[i * bs + k] *= s ? (*s)[i] : 1.0;
    rs.applyScaling(v, FORWARD, dir); expect(v, w, d ? "column scaling of a vector" : "row scaling of a vector", 1e-13);
    Vec u = w; for (int i = 0; i < n; i++) for (int k = 0; k < bs; k++) u[i * bs + k] = w[(p ? (*p)[i] : i) * bs + k];
    rs.applyOrdering(v, FORWARD, dir); expect(v, u, d ? "column ordering of a vector" : "row ordering of a vector", 1e-13);
    mc::observe(mc::hash(v, N * 8));
    rs.applyOrdering(v, INVERSE, dir); expect(v, w, "vector with the ordering undone", 1e-13);
    rs.applyScaling(v, INVERSE, dir); expect(v, x, "vector restored", 1e-13);
    rs.applyOrdering(v, INVERSE, dir); rs.applyOrdering(v, FORWARD, dir); expect(v, x, "inverse, then forward ordering of a vector", 1e-13);
    free(v); mc::trans_add(6);
  }
}
template <int bs> static void owned(const Mat& A, const Mat& B, const Job& q) {
  { typedef BSRMatrix<double,int,bs> M;
    RawBSRMatrix<double,int> rm;
    std::vector<int> rp(A.rp), ci(A.ci);
    In in(A, false);
    { M m(A.n, in.rp, in.ci, in.v, in.di);
      RS<bs> rs; setup(rs, q, A.n);
      M c(m);
      m.reorderScale(rs, FORWARD);
      same(B, in.rp, in.ci, in.v, in.di, "reordered matrix object");
      Vec x = vec(A.N(), 4); double *xx = dup(x), *y = fresh<double>(A.N());
      m.apply(xx, y); expect(y, mul(B.dense(), x), "product with the reordered matrix", 1e-11);
      m.reorderScale(rs, INVERSE);
      same(A, in.rp, in.ci, in.v, in.di, "matrix object restored");
      m.apply(xx, y); expect(y, mul(A.dense(), x), "product with the restored matrix", 1e-11);
      c.reorderScale(rs, FORWARD); c.apply(xx, y); expect(y, mul(B.dense(), x), "product with a reordered copy", 1e-11);
      same(A, in.rp, in.ci, in.v, in.di, "matrix whose copy was reordered");
      free(xx); free(y); mc::trans_add(3); }
    in.free_all(); }
}
static std::vector<Perm> perms(int n) { Perm p(n); for (int i = 0; i < n; i++) p[i] = i; std::vector<Perm> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
static Vec scale_of(int n, int kind) { Vec s(n); for (int i = 0; i < n; i++) s[i] = kind == 2 ? (i % 3 == 1 ? -1 : 1) * std::pow(10.0, (i * 5) % 17 - 8) : kind == 0 ? std::ldexp(1.0, (i * 3) % 5 - 2) : 0.3 + 0.7 * i + 0.11 * (i % 3); return s; }
template <int bs> static typename std::enable_if<bs != 4>::type own_(const Mat& A, const Mat& B, const Job& q) { if (A.rowmajor) owned<bs>(A, B, q); }
template <int bs> static typename std::enable_if<bs == 4>::type own_(const Mat&, const Mat&, const Job&) {}
template <int bs> static void go(mc::Runner& R, const Mat& A, const Job& q, int T, int P, bool own, int dev = -1) {
  Mat B = transformed(A, q);
  mc::Cfg c; c.threads = T; c.preempt = P; c.check_leaks = true; if (T == 1) c.schedules = false; c.deviations = dev;
  if (T > 1 && dev < 0) { for (bool f : {true, false}) R.explore(c, [&]() { raw_part<bs>(A, B, q, f); }); return; }
  R.explore(c, [&]() { raw<bs>(A, B, q); if (T == 1 || dev >= 0) vectors<bs>(A, q); if (own && (T == 1 || dev >= 0) && A.nnz()) own_<bs>(A, B, q); });
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C18");
  const bool th = R.thorough();
  // every pattern, every pair of orderings (or none), scalings
  for (int n = 1; n <= 4; n++) {
    std::vector<Perm> ps = perms(n); long NP = 1L << (n * n), np = (long)ps.size() + 1;
    Vec s0 = scale_of(n, 2), s1 = scale_of(n, 1);
    for (long pr = 0; pr < np * np; pr++) {
      if (!R.begin(mc::fmt("matrix/n=%d/row=%ld/col=%ld", n, pr / np, pr % np))) continue;
      Job q; if (pr / np) q.rp = &ps[pr / np - 1]; if (pr % np) q.cp = &ps[pr % np - 1];
      long step = n < 4 ? 1 : th ? 1 : 17, wide = th ? 29 : 13;
      for (long k = n < 4 ? 0 : pr % step; k < NP; k += step) {
        int sc = (int)((k + pr) % 4); q.rs = sc & 1 ? &s0 : 0; q.cs = sc & 2 ? &s1 : 0;
        Pat p = any_pattern(n, k);
        go<1>(R, make(p, 1, true, 1), q, 1, 0, true);
        if ((n == 3 && !th && (k + pr) % 5) || (n == 4 && (k / step) % wide)) continue;
        go<4>(R, make(p, 4, false, 2), q, 1, 0, false); go<7>(R, make(p, 7, true, 3), q, 1, 0, true);
      }
    }
  }
  // vectors under all interleavings
  for (int T = 2; T <= (th ? 4 : 3); T++) for (int n = 1; n <= 4; n++) {
    std::vector<Perm> ps = perms(n);
    for (size_t a = 0; a < ps.size(); a++) {
      if (!R.begin(mc::fmt("vector/T=%d/n=%d/perm=%zu", T, n, a))) continue;
      Perm o = ps[(a * 7 + 1) % ps.size()]; Vec s0 = scale_of(n, 0), s1 = scale_of(n, 1); Job q; q.rp = &ps[a]; q.cp = &o; q.rs = &s0; q.cs = &s1;
      Pat p = any_pattern(n, 1); mc::Cfg c; c.threads = T; c.preempt = T == 2 ? 2 : 1; c.check_leaks = true;
      Mat A = make(p, 1, true, 1); R.explore(c, [&]() { vectors<1>(A, q); });
      Mat A4 = make(p, 4, true, 1); R.explore(c, [&]() { vectors<4>(A4, q); });
    }
  }
  // matrices large enough for the library to hand rows to several threads
  for (int T : {2, 3}) for (int kind = 0; kind < 4; kind++) {
    if (!R.begin(mc::fmt("threads/T=%d/kind=%d", T, kind))) continue;
    int n = th && T == 2 ? 201 : 403; Perm a(n), b(n); for (int i = 0; i < n; i++) { a[i] = kind & 1 ? n - 1 - i : (i * 5 + 2) % n; b[i] = (i * 7 + 1) % n; }
    Vec s0 = scale_of(n, 0), s1 = scale_of(n, 1); Job q; q.rp = &a; q.cp = &b; q.rs = &s0; q.cs = &s1; if (kind == 2) q.rp = 0; if (kind == 3) q.cp = &a;
    Mat A = make(band_pattern(n, kind & 1 ? std::vector<int>{-1, 3} : std::vector<int>{-2, 1}), 1, true, 1);
    go<1>(R, A, q, T, T == 2 && th ? 1 : 0, false);
  }
  for (int n : {9, 33, 120}) for (int kind = 0; kind < 6; kind++) {
    if (!R.begin(mc::fmt("large/n=%d/kind=%d", n, kind))) continue;
    Perm a(n), b(n); for (int i = 0; i < n; i++) { a[i] = n - 1 - i; b[i] = (i + kind + 1) % n; } if (kind > 2) { std::swap(a[0], a[n / 2]); std::swap(b[1], b[n - 1]); std::swap(b[2], b[n / 3]); }
    Vec s0 = scale_of(n, 0), s1 = scale_of(n, 1); Job q; q.rp = &a; q.cp = &b; if (kind % 2) { q.rs = &s1; q.cs = &s0; }
    Pat p(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i == j || (i * 7 + j * 5) % 9 < 2) p[i].push_back(j);
    go<1>(R, make(p, 1, true, 1), q, 1, 0, true); go<4>(R, make(p, 4, true, 1), q, 1, 0, false); if (n < 100) go<7>(R, make(p, 7, true, 1), q, 1, 0, true);
  }
  // objects whose orderings are set again, for matrices of other sizes, or one ordering at a time
  for (int n = 1; n <= 4; n++) for (int n0 = 0; n0 <= 5; n0++) {
    if (!R.begin(mc::fmt("again/n=%d/before=%d", n, n0))) continue;
    std::vector<Perm> ps = perms(n), qs = perms(n0 ? n0 : 1); Vec s0 = scale_of(n, 0), s1 = scale_of(n, 1);
    g_split = n0 == 0;
    for (size_t a = 0; a < ps.size(); a++) for (size_t b = 0; b < ps.size(); b++) {
      std::vector<Perm> bf{qs[(a * 5 + b) % qs.size()]}; if (b % 2) { Perm big(9); for (int i = 0; i < 9; i++) big[i] = (i * 4 + 2) % 9; bf.insert(bf.begin() + (a % 2), big); } g_before = n0 ? &bf : nullptr;
      Job q; if (a % 5 != 4 || !n0) q.rp = &ps[a]; if (b % 5 != 3 || !n0) q.cp = &ps[b]; if (b % 3 == 0) { q.rs = &s0; q.cs = &s1; }
      Pat p = any_pattern(n, ((long)(a * 37 + b * 11) * 2654435761L >> 4) & ((1L << (n * n)) - 1));
      go<1>(R, make(p, 1, true, 1), q, 1, 0, true); if ((a + b) % 3 == 0) { go<4>(R, make(p, 4, false, 2), q, 1, 0, false); go<7>(R, make(p, 7, true, 3), q, 1, 0, true); }
      g_before = nullptr;
    }
    g_split = false;
  }
  // long vectors
  for (int n : {255, 257, 1001, 1025}) for (int T : {1, 4}) {
    if (!R.begin(mc::fmt("vector/long/n=%d/T=%d", n, T))) continue;
    Perm a(n), b(n); for (int i = 0; i < n; i++) { a[i] = n - 1 - i; b[i] = (int)((i * 2L + 1) % n); } Vec s0 = scale_of(n, 0), s1 = scale_of(n, 1); Job q; q.rp = &a; q.cp = &b; q.rs = &s0; q.cs = &s1;
    mc::Cfg c; c.threads = T; c.deviations = 0; c.check_leaks = true; Pat p = band_pattern(n, {});
    Mat A = make(p, 1, true, 1), A4 = make(p, 4, true, 1), A7 = make(p, 7, true, 1);
    R.explore(c, [&]() { vectors<1>(A, q); }); R.explore(c, [&]() { vectors<4>(A4, q); }); R.explore(c, [&]() { vectors<7>(A7, q); });
  }
  for (int bs : {1, 4, 7}) {
    auto fs = holes(bs); for (auto& F : sizes(bs)) if (!F.big || F.pat.size() > 190) fs.push_back(F);
    for (auto& F : fs) {
      int n = (int)F.pat.size(); if (bs > 1 && n % 3 == 2) continue;
      if (!R.begin(mc::fmt("sizes/bs=%d/%s", bs, F.name.c_str()))) continue;
      Perm a(n), b(n); for (int i = 0; i < n; i++) { a[i] = n - 1 - i; b[i] = (i + n / 2 + 1) % n; } if (n > 2) std::swap(a[0], a[n - 2]);
      Vec s0 = scale_of(n, 1), s1 = scale_of(n, 0); Job q; q.rp = &a; q.cp = &b; q.rs = &s0; q.cs = &s1; Mat A = make(F, bs, bs != 4, 1);
      for (int T : {1, 4}) { if (bs == 1) go<1>(R, A, q, T, 0, true, 0); else if (bs == 4) go<4>(R, A, q, T, 0, false, 0); else go<7>(R, A, q, T, 0, true, 0); }
    }
  }
  // wide inputs with one thread and with teams of several sizes
  auto wide = [&](int bs, bool rm) {
    for (auto& F : families(bs)) for (int k = 0; k < 6; k++) {
      if (!R.begin(mc::fmt("wide/bs=%d/%s/%s/%d", bs, rm ? "row" : "col", F.name.c_str(), k))) continue;
      Mat A = make(F, bs, rm, k); int n = A.n; Perm a(n), b(n); int st = n % 5 ? 5 : n % 7 ? 7 : 11;
      for (int i = 0; i < n; i++) { a[i] = k % 3 == 0 ? n - 1 - i : k % 3 == 1 ? (int)((long)i * st % n) : (i ^ 1) < n ? (i ^ 1) : i; b[i] = k % 2 ? (i + n / 2) % n : (int)((long)i * st + 3) % n; }
      if (k == 2) { std::swap(a[0], a[n - 1]); std::swap(b[0], b[n / 2]); }
      Vec s0 = scale_of(n, 0), s1 = scale_of(n, 1); for (int i = 0; i < n; i += 3) s0[i] = -s0[i]; Job q; q.rp = &a; q.cp = &b; q.rs = &s0; q.cs = &s1;
      if (k == 3) { q.rs = 0; q.cp = 0; } if (k == 4) { q.cs = 0; q.rp = 0; } if (k == 5) q.rp = q.cp = 0;
      for (int T : {1, 2, 5, 17}) { if (F.big && T > 1 && T != 5) continue; if (bs == 1) go<1>(R, A, q, T, 0, true, 0); else if (bs == 4) go<4>(R, A, q, T, 0, false, 0); else go<7>(R, A, q, T, 0, true, 0); }
    }
  };
  wide(1, true); wide(4, false); wide(7, true);
  return R.finish();
}
