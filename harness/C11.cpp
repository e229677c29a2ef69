// Assembly: concurrent block updates, block insertion
#include "ref.hpp"
#include "wide.hpp"
#include "blockmatrices.hpp"
#include <omp.h>
using namespace ref;
using namespace blasted;

// one assembly operation
struct Upd { int op, i, j, bi, bj; Vec buf; };   // op 0: updateBlock, 1: updateDiagBlock, 2: submitBlock ; i,j in scalar rows/columns
static int g_kind = 0;
static Vec bufof(int n, int seed) { if (g_kind) { Vec b(n); for (int k = 0; k < n; k++) b[k] = g_kind == 1 ? -(k + 1) - 0.5 * seed : (k + seed) % 2 ? 0.0 : 0.25 * (k + 1) - seed; return b; } Vec b(n); for (int k = 0; k < n; k++) b[k] = (k + 1) + 32.0 * (seed + 1) + 0.125 * (k % 3); return b; }

// values of every kind: negative, zero, tiny and huge next to plain ones
static Vec mixed(int n, int seed) { Vec b(n); for (int k = 0; k < n; k++) { int q = (k * 5 + seed * 3) % 7; b[k] = q == 0 ? 0.0 : q == 1 ? -3.5 - k : q == 2 ? 1048576.0 * (k + 1) : q == 3 ? -0.0009765625 * (k + 1) : q == 4 ? -1.0 : k + 0.25 * seed + 1; } return b; }
// what the operation means, on the dense picture of the matrix
static void model(Mat& m, const Upd& u) {
  int bs = m.bs, bj = u.op == 1 ? u.bi : u.bj;
  for (int a = 0; a < u.bi; a++) for (int b = 0; b < bj; b++) {
    int r = u.i + a, c = u.j + b, p = m.find(r / bs, c / bs); if (p < 0) continue;
    double& x = m.at(p, r % bs, c % bs); double v = u.buf[(size_t)a * bj + b];
    if (u.op == 2) x = v; else x += v;
  }
}
template <class M> static void issue(M& A, const Upd& u, const double* buf, int bs) {
  // for block matrices the size arguments are documented dummies: anything may be passed
  int p1 = bs == 1 ? u.bi : -17, p2 = bs == 1 ? u.bj : 1000;
  if (u.op == 0) A.updateBlock(u.i, u.j, buf, p1, p2);
  else if (u.op == 1) A.updateDiagBlock(u.i, buf, p1);
  else A.submitBlock(u.i, u.j, buf, p1, p2);
}
static void same(const double* v, const Mat& w, const char* what) {
  for (size_t k = 0; k < w.v.size(); k++) if (v[k] != w.v[k]) mc::fail(mc::fmt("%s: stored value %zu is %.15g, should be %.15g", what, k, v[k], w.v[k]));
  mc::observe(mc::hash(v, w.v.size() * 8));
}
// a sequence of operations by one thread
template <int bs> static void seq(mc::Runner& R, const Mat& m, const std::vector<Upd>& us) {
  Mat w = m; for (auto& u : us) model(w, u);
  mc::Cfg c; c.threads = 1; c.check_leaks = true;
  R.explore(c, [&]() {
    In in(m, false);
    mc::mark_readonly(in.rp, m.rp.size() * 4); mc::mark_readonly(in.ci, m.ci.size() * 4); mc::mark_readonly(in.di, m.di.size() * 4);
    {
      BSRMatrix<double, int, bs> A(m.n, in.rp, in.ci, in.v, in.di);
      std::vector<const double*> bufs; for (auto& u : us) bufs.push_back(ro(u.buf));
      for (size_t k = 0; k < us.size(); k++) { issue(A, us[k], bufs[k], bs); mc::trans_add(1); }
      same(in.v, w, "assembled values");
      mc::clear_readonly(); for (auto b : bufs) free((void*)b);
    }
    free(in.rp); free(in.ci); free(in.di); free(in.v);
  });
}
// every thread issues its own list, concurrently
template <int bs> static void par(mc::Runner& R, const Mat& m, const std::vector<std::vector<Upd>>& us, int preempt, int dev = -1) {
  Mat w = m; for (auto& l : us) for (auto& u : l) model(w, u);
  mc::Cfg c; c.threads = (int)us.size(); c.preempt = preempt; c.deviations = dev; c.max_execs = 400000;
  R.explore(c, [&]() {
    In in(m, false);
    BSRMatrix<double, int, bs> A(m.n, in.rp, in.ci, in.v, in.di);
    std::vector<std::vector<const double*>> bufs;
    for (auto& l : us) { bufs.emplace_back(); for (auto& u : l) bufs.back().push_back(ro(u.buf)); }
    BSRMatrix<double, int, bs>* pA = &A; auto* pu = &us; auto* pb = &bufs;
#pragma omp parallel default(none) shared(pA, pu, pb)
    {
      int t = omp_get_thread_num();
      for (size_t k = 0; k < (*pu)[t].size(); k++) issue(*pA, (*pu)[t][k], (*pb)[t][k], bs);
    }
    mc::trans_add((long)us.size());
    same(in.v, w, "concurrently assembled values");
  });
}
template <int bs> static void blocks(mc::Runner& R, const char* nm, bool few) {
  // every pattern, every stored position, every pair of operations
  for (int n = 1; n <= (few ? 2 : 3); n++) for (long mask = 0; mask < (1L << (n * n)); mask++) {
    auto pat = any_pattern(n, mask); Mat m = make(pat, bs, true, (int)mask);
    if (!m.nnz()) continue;
    bool full = true; for (int d : m.di) if (d < 0) full = false;
    if (!R.begin(mc::fmt("%s/seq/n=%d/mask=%ld", nm, n, mask))) continue;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int op = 0; op < 3; op++) {
      if (op == 1 && (i != j || m.di[i] < 0)) continue;
      std::vector<Upd> us; us.push_back({op, i * bs, j * bs, bs, bs, bufof(bs * bs, op)});   // absent blocks: nothing may change
      seq<bs>(R, m, us);
      if (op != 0 || full) { us.push_back({0, i * bs, j * bs, bs, bs, bufof(bs * bs, 5)}); us.push_back({2, (n - 1) * bs, m.ci[m.rp[n] - 1] * bs, bs, bs, bufof(bs * bs, 9)}); if (m.rp[n] == m.rp[n - 1]) us.pop_back(); seq<bs>(R, m, us); }
    }
  }
  // concurrency
  auto P = [&](int n, std::vector<std::vector<std::array<int, 3>>> ops, int preempt, const char* id) {
    if (!R.begin(mc::fmt("%s/par/%s", nm, id))) return;
    Mat m = make(pattern(n, nmasks(n) - 1), bs, true, 3);
    std::vector<std::vector<Upd>> us; int s = 0;
    for (auto& l : ops) { us.emplace_back(); for (auto& o : l) us.back().push_back({o[0], o[1] * bs, o[2] * bs, bs, bs, bufof(bs * bs, s++)}); }
    par<bs>(R, m, us, preempt);
  };
  int p2 = bs == 3 ? 2 : R.thorough() ? 2 : 1;
  P(2, {{{0, 0, 1}}, {{0, 0, 1}}}, p2, "upd-upd same block");
  P(2, {{{1, 0, 0}}, {{1, 0, 0}}}, p2, "diag-diag same block");
  P(2, {{{1, 1, 1}}, {{0, 1, 1}}}, p2, "diag-upd same block");
  P(2, {{{1, 0, 0}, {0, 0, 1}}, {{0, 0, 1}, {1, 0, 0}}}, R.thorough() && bs == 3 ? 2 : 1, "crossing pairs");
  P(2, {{{0, 0, 1}}, {{1, 0, 0}}, {{0, 0, 1}}}, 1, "three threads");
  if (R.thorough()) P(2, {{{0, 0, 1}}, {{0, 0, 1}}, {{0, 0, 1}}}, bs == 3 ? 2 : 1, "three threads same block");
  P(3, {{{0, 0, 1}, {2, 0, 0}}, {{1, 1, 1}, {2, 2, 1}}}, 2, "disjoint");
}
// long sequences over larger patterns: every stored block is hit several times, in an order that jumps around
template <int bs> static std::vector<Upd> tour(const Mat& m, int salt) {
  std::vector<std::pair<int,int>> pos; for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) pos.push_back({i, m.ci[p]});
  std::vector<Upd> us; size_t K = pos.size(), st = 1; for (size_t c : {37, 41, 43, 47, 53}) if (K % c) { st = c; break; }
  size_t lim = std::min<size_t>(K, 700), at = salt % K;
  for (size_t k = 0; k < lim; k++, at = (at + st) % K) { int i = pos[at].first, j = pos[at].second, op = (k + salt) % 5 == 0 ? 2 : i == j && (k + salt) % 2 ? 1 : 0; us.push_back({op, i * bs, j * bs, bs, bs, mixed(bs * bs, (int)k + salt)}); }
  for (int i = 0; i < m.n; i += std::max(1, m.n / 50)) if (m.di[i] >= 0) us.push_back({1, i * bs, i * bs, bs, bs, mixed(bs * bs, i + salt)});
  return us;
}
template <int bs> static void wide(mc::Runner& R, const char* nm) {
  auto all = families(bs); for (auto& F : holes(bs)) all.push_back(F); for (auto& F : sizes(bs)) if (F.pat.size() % 8 < 2) all.push_back(F);
  for (auto& F : all) {
    Mat m = make(F, bs, true, 9); if (!m.nnz()) continue;
    if (R.begin(mc::fmt("%s/wide/%s", nm, F.name.c_str()))) for (int salt = 0; salt < 3; salt++) seq<bs>(R, m, tour<bs>(m, salt));
    // many threads over the same blocks: sums are exact because all values are small dyadic numbers
    if (F.vc != VC_PLAIN && F.vc != VC_WEAK) continue;
    for (int T : {2, 5, 17}) {
      if (!R.begin(mc::fmt("%s/wide-par/%s/T=%d", nm, F.name.c_str(), T))) continue;
      int per = std::max(1, 24 / T); std::vector<std::vector<Upd>> us;
      for (int t = 0; t < T; t++) { us.emplace_back(); for (int k = 0; k < per; k++) { int i = (k * 11 + (t % 2) * 11) % m.n; if (m.rp[i] == m.rp[i + 1]) continue; int p = m.rp[i] + (k * 3 + t / 2) % (m.rp[i + 1] - m.rp[i]), j = m.ci[p]; Vec b(bs * bs); for (size_t q = 0; q < b.size(); q++) b[q] = ((int)(q + t + k) % 5 - 2) * 0.5; us.back().push_back({i == j && k % 2 ? 1 : 0, i * bs, j * bs, bs, bs, b}); } }
      par<bs>(R, m, us, 1, 1);
    }
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C11");
  // CSR: large rectangular windows
  for (int n : {12, 33}) for (int lower = 0; lower < 2; lower++) {
    if (!R.begin(mc::fmt("csr/windows/n=%d/lower=%d", n, lower))) continue;
    Mat m = make(dense_pat(n, lower), 1, true, n); std::vector<Upd> us; int q = 0;
    for (int bi = 1; bi <= 12; bi++) for (int bj = 1; bj <= 12; bj++) for (int i : {0, 1, n / 2, n - bi}) for (int j : {0, 1, i, n - bj}) {
      if (i + bi > n || j + bj > n || j < 0 || (lower && j + bj > i + 1)) continue;
      q++; us.push_back({q % 3 == 0 ? 2 : 0, i, j, bi, bj, mixed(bi * bj, q)});
      if (i == j && bi == bj) us.push_back({1, i, i, bi, bi, mixed(bi * bi, q + 1)});
    }
    for (size_t k = 0; k < us.size(); k += 20) seq<1>(R, m, std::vector<Upd>(us.begin() + k, us.begin() + std::min(us.size(), k + 20)));
    seq<1>(R, m, us);
  }
  wide<1>(R, "csr"); wide<3>(R, "bsr3"); wide<7>(R, "bsr7");
  // CSR: every pattern, every window whose entries are all stored
  int nmax = 4;
  for (int n = 1; n <= nmax; n++) {
    long N = 1L << (n * n), step = n < 4 ? 1 : R.thorough() ? 1 : 23;
    for (long m0 = 0; m0 < N; m0 += 64 * step) {
      if (!R.begin(mc::fmt("csr/seq/n=%d/masks=%ld+", n, m0))) continue;
      for (long mask = m0; mask < N && mask < m0 + 64 * step; mask += step) {
        Mat m = make(any_pattern(n, mask), 1, true, (int)mask); if (!m.nnz()) continue;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int bi = 1; i + bi <= n; bi++) for (int bj = 1; j + bj <= n; bj++) {
          bool all = true; for (int a = 0; a < bi && all; a++) for (int b = 0; b < bj && all; b++) if (m.find(i + a, j + b) < 0) all = false;
          if (!all) continue;
          bool dg = i == j && bi == bj;
          std::vector<Upd> us;
          us.push_back({0, i, j, bi, bj, bufof(bi * bj, 1)}); us.push_back({2, i, j, bi, bj, bufof(bi * bj, 2)}); us.push_back({0, i, j, bi, bj, bufof(bi * bj, 3)});
          if (dg) us.push_back({1, i, i, bi, bi, bufof(bi * bi, 4)});
          seq<1>(R, m, us);
          us.erase(us.begin() + 1, us.begin() + 3); seq<1>(R, m, us);
        }
      }
    }
  }
  struct PC { int n; std::vector<std::vector<Upd>> us; const char* id; };
  for (int kind = 0; kind < 3; kind++) {
  g_kind = kind; std::vector<PC> pcs;
  auto U = [](int op, int i, int j, int bi, int bj, int s) { return Upd{op, i, j, bi, bj, bufof(bi * bj, s)}; };
  pcs.push_back({2, {{U(0,0,0,2,2,0)}, {U(0,0,0,2,2,1)}}, "same 2x2"});
  pcs.push_back({3, {{U(0,0,0,2,2,0)}, {U(0,1,1,2,2,1)}}, "overlapping corner"});
  pcs.push_back({3, {{U(0,0,0,2,3,0)}, {U(0,0,1,3,2,1)}}, "rectangles"});
  pcs.push_back({3, {{U(1,0,0,2,2,0)}, {U(1,0,0,2,2,1)}}, "diag-diag"});
  pcs.push_back({3, {{U(1,0,0,2,2,0)}, {U(1,1,1,2,2,1)}}, "overlapping diag"});
  pcs.push_back({3, {{U(1,0,0,3,3,0)}, {U(0,0,0,3,3,1)}}, "diag-update"});
  pcs.push_back({2, {{U(0,0,0,2,2,0)}, {U(0,0,0,2,2,1)}, {U(0,0,0,2,2,2)}}, "three same 2x2"});
  pcs.push_back({2, {{U(0,0,0,1,2,0), U(0,0,1,2,1,1)}, {U(0,0,1,2,1,2), U(0,0,0,1,2,3)}, {U(1,0,0,2,2,4)}}, "three mixed"});
  pcs.push_back({2, {{U(0,0,0,1,1,0)}, {U(0,0,0,1,1,1)}, {U(1,0,0,1,1,2)}, {U(0,0,0,1,1,3)}}, "four same entry"});
  for (auto& p : pcs) for (int pb : {2, 3}) {
    if (pb == 3 && !R.thorough() && (p.us.size() > 2 || kind)) continue;
    if (!R.begin(mc::fmt("csr/par/%s/values=%d/preempt=%d", p.id, kind, pb))) continue;
    Mat m = make(pattern(p.n, nmasks(p.n) - 1), 1, true, 3); par<1>(R, m, p.us, pb);
  }
  blocks<3>(R, kind == 0 ? "bsr3" : kind == 1 ? "bsr3/negative" : "bsr3/zeros", kind > 0); blocks<7>(R, kind == 0 ? "bsr7" : kind == 1 ? "bsr7/negative" : "bsr7/zeros", kind > 0);
  }
  g_kind = 0;
  return R.finish();
}
