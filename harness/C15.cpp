// Coordinate data to compressed (block) rows
#include "ref.hpp"
#include "coomatrix.hpp"
#include <fcntl.h>
#include <unistd.h>
using namespace ref;
using namespace blasted;
static std::string g_path;
static void put(const std::string& s) { int fd = open(g_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } close(fd); }
struct Ent { int r, c; double v; };

template <int bs> static void expect_bsr(const SRMatrixStorage<double,int>& A, int N, const std::vector<Ent>& es, bool row, const char* what) {
  int n = N / bs; std::vector<std::vector<int>> cols(n);
  for (auto& e : es) cols[e.r / bs].push_back(e.c / bs);
  Mat m; m.n = n; m.bs = bs; m.rowmajor = row; m.rp.push_back(0);
  for (int i = 0; i < n; i++) { auto& c = cols[i]; std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); m.di.push_back(-1); for (int j : c) { if (j == i) m.di[i] = (int)m.ci.size(); m.ci.push_back(j); } m.rp.push_back((int)m.ci.size()); }
  m.v.assign((size_t)m.nnz() * bs * bs, 0.0);
  for (auto& e : es) m.at(m.find(e.r / bs, e.c / bs), e.r % bs, e.c % bs) = e.v;
  if (A.nbrows != n || A.nnzb != m.nnz() || A.nbstored != m.nnz()) mc::fail(mc::fmt("%s: %d rows, %d non-zero and %d stored blocks, should be %d, %d, %d", what, A.nbrows, A.nnzb, A.nbstored, n, m.nnz(), m.nnz()));
  if (A.browptr.size() != n + 1 || A.bcolind.size() != m.nnz() || A.vals.size() != (int)m.v.size() || A.diagind.size() != n || A.browendptr.size() != n) mc::fail(mc::fmt("%s: array lengths do not fit the matrix", what));
  for (int i = 0; i <= n; i++) if (A.browptr[i] != m.rp[i]) mc::fail(mc::fmt("%s: row pointer %d is %d, should be %d", what, i, A.browptr[i], m.rp[i]));
  for (int i = 0; i < n; i++) { if (A.browendptr[i] != m.rp[i + 1]) mc::fail(mc::fmt("%s: row end %d is %d, should be %d", what, i, A.browendptr[i], m.rp[i + 1])); if (A.diagind[i] != m.di[i]) mc::fail(mc::fmt("%s: diagonal position of row %d is %d, should be %d", what, i, A.diagind[i], m.di[i])); }
  for (int p = 0; p < m.nnz(); p++) if (A.bcolind[p] != m.ci[p]) mc::fail(mc::fmt("%s: column of block %d is %d, should be %d", what, p, A.bcolind[p], m.ci[p]));
  for (size_t k = 0; k < m.v.size(); k++) if (A.vals[k] != m.v[k]) mc::fail(mc::fmt("%s: value %zu is %.15g, should be %.15g", what, k, A.vals[k], m.v[k]));
  mc::trans_add(1); mc::observe(mc::hash(m.ci.data(), m.ci.size() * 4));
}
static std::string show(int N, const std::vector<Ent>& es) { std::string s = mc::fmt("%dx%d:", N, N); for (size_t k = 0; k < es.size() && k < 40; k++) s += mc::fmt(" (%d,%d)", es[k].r, es[k].c); return s; }
template <int bs> static void conv(const COOMatrix<double,int>& coo, int N, const std::vector<Ent>& es) {
  { auto A = getSRMatrixFromCOO<double,int,bs>(coo, "rowmajor"); expect_bsr<bs>(A, N, es, true, mc::fmt("block size %d row-major", bs).c_str()); }
  if (bs > 1) { auto A = getSRMatrixFromCOO<double,int,bs>(coo, "colmajor"); expect_bsr<bs>(A, N, es, false, mc::fmt("block size %d column-major", bs).c_str()); }
  if (bs > 1) { bool thrown = false; try { auto A = getSRMatrixFromCOO<double,int,bs>(coo, "diagonal"); } catch (const std::exception&) { thrown = true; } if (!thrown) mc::fail("an unknown storage order was accepted"); }
}
template <int bs> static typename std::enable_if<bs == 1 || bs == 7>::type owned(int N, const std::vector<Ent>& es) {
  BSRMatrix<double,int,bs> M = constructBSRMatrixFromMatrixMarketFile<double,int,bs>(g_path);
  expect_bsr<bs>(M.getRawSRMatrix(), N, es, true, "matrix constructed from file");
}
template <int bs> static typename std::enable_if<bs != 1 && bs != 7>::type owned(int, const std::vector<Ent>&) {}
template <int bs> static void one(mc::Runner& R, int N, std::vector<Ent> es, int order) {
  if (es.empty()) return;
  if (order == 1) std::reverse(es.begin(), es.end());
  if (order == 2) { std::vector<Ent> q; for (size_t k = 0; k < es.size(); k++) q.push_back(es[k % 2 ? es.size() - 1 - k / 2 : k / 2]); es = q; }
  std::string f = mc::fmt("%%%%MatrixMarket matrix coordinate real general\n%d %d %zu\n", N, N, es.size());
  for (auto& e : es) f += mc::fmt("%d %d %.17g\n", e.r + 1, e.c + 1, e.v);
  put(f);
  mc::Cfg c; c.threads = 3; c.deviations = 1; c.max_execs = 20000;
  auto st = R.explore(c, [&]() {
    COOMatrix<double,int> coo; coo.readMatrixMarket(g_path);
    long before = mc::live_blocks();
    conv<bs>(coo, N, es);
    if (mc::live_blocks() != before) mc::fail("conversion leaks memory");
    owned<bs>(N, es);
  });
  (void)st;
}
template <int bs> static void blocks(mc::Runner& R, const char* nm) {
  // every scalar row chooses which block columns it touches
  for (int nb = 1; nb <= 3; nb++) {
    int N = nb * bs, opts = 1 << nb;
    // rows enumerated exhaustively: r0, the first scalar rows; the remaining ones cycle through fixed choices
    int rows = nb == 1 ? std::min(N, 4) : nb == 2 ? std::min(N, bs == 3 && R.thorough() ? 6 : 5) : (R.thorough() ? 4 : 3);
    long total = 1; for (int k = 0; k < rows; k++) total *= opts;
    for (int rest = 0; rest < 3; rest++) for (int shift = 0; shift < nb; shift++) for (long m0 = 0; m0 < total; m0 += 128) {
      if (!R.begin(mc::fmt("%s/nb=%d/rest=%d/shift=%d/%ld+", nm, nb, rest, shift, m0))) continue;
      for (long m = m0; m < total && m < m0 + 128; m++) {
        std::vector<Ent> es;
        for (int r = 0; r < N; r++) {
          int i = (r - shift * bs - (bs / 2) + 2 * N) % N, ch; long q = m; 
          if (i < rows) { for (int k = 0; k < i; k++) q /= opts; ch = (int)(q % opts); }
          else ch = rest == 0 ? 0 : rest == 1 ? (1 << (r / bs)) : (r * 5 + 3) % opts;
          for (int b = 0; b < nb; b++) if (ch >> b & 1) { int c0 = (r * 2 + b * 3 + (int)m) % bs; es.push_back({r, b * bs + c0, val(r, b, c0, 0, 3)}); if ((r + b) % 3 == 0) { int c1 = (c0 + 1) % bs; es.push_back({r, b * bs + c1, val(r, b, c1, 1, 3)}); } }
        }
        one<bs>(R, N, es, (int)(m % 3));
      }
    }
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C15");
  const char* td = getenv("MC_TMP"); g_path = std::string(td ? td : "/tmp") + mc::fmt("/mm-%d.mtx", (int)getpid());
  for (int n = 1; n <= 4; n++) {
    long N = 1L << (n * n), step = 1;
    for (long m0 = 0; m0 < N; m0 += 128 * step) {
      if (!R.begin(mc::fmt("csr/n=%d/masks=%ld+", n, m0))) continue;
      for (long m = m0; m < N && m < m0 + 128 * step; m += step) {
        std::vector<Ent> es; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m >> (i * n + j) & 1) es.push_back({i, j, val(i, j, 0, 0, 1)});
        for (int o = 0; o < 3; o++) one<1>(R, n, es, o);
      }
    }
  }
  blocks<3>(R, "bsr3"); blocks<4>(R, "bsr4"); blocks<7>(R, "bsr7");
  for (int n : {21, 42, 84}) {
    if (!R.begin(mc::fmt("large/n=%d", n))) continue;
    for (int d = 2; d < 9; d++) { std::vector<Ent> es; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i * 7 + j * 11 + i * j) % (d * 5) == 0) es.push_back({i, j, val(i, j, 0, 0, 2)}); for (int o = 0; o < 3; o++) { one<1>(R, n, es, o); one<3>(R, n, es, o); if (n % 4 == 0) one<4>(R, n, es, o); one<7>(R, n, es, o); } }
  }
  // values: zeros, negative, extreme magnitudes, entries given in every order of a small set
  for (int bs : {1, 3, 4}) {
    if (!R.begin(mc::fmt("values/bs=%d", bs))) continue;
    static const double V[] = {0.0, -0.0, -1.5, 1e-300, -1e300, 4.9e-324, 123456789.123456789, 1.0 / 3, 2147483648.0, -7};
    for (int k = 0; k < 10; k++) for (int o = 0; o < 3; o++) { std::vector<Ent> es; int n = 12; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i + j) % 2 == 0 || i == 3) es.push_back({i, j, V[(i + 3 * j + k) % 10]}); if (bs == 1) one<1>(R, n, es, o); else if (bs == 3) one<3>(R, n, es, o); else one<4>(R, n, es, o); }
  }
  // all orders in which the entries of two block-rows can be listed in the file
  if (R.begin("orders")) {
    std::vector<int> pm = {0, 1, 2, 3, 4, 5}; do {
      static const int RR[] = {0, 0, 1, 4, 5, 5}, CC[] = {5, 0, 3, 4, 1, 4}; std::vector<Ent> es; for (int k : pm) es.push_back({RR[k], CC[k], val(RR[k], CC[k], 0, 0, 5)});
      one<1>(R, 6, es, 0); one<3>(R, 6, es, 0);
    } while (std::next_permutation(pm.begin(), pm.end()));
  }
  // long rows and columns, dense, arrow-shaped, empty ends
  for (int k = 0; k < 6; k++) {
    if (!R.begin(mc::fmt("long/%d", k))) continue;
    for (int n : {36, 84, 168, 672}) for (int o = 0; o < 3; o++) {
      std::vector<Ent> es; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { bool in = k == 0 ? (i == 0 || j == 0 || i == j) : k == 1 ? (i == n - 1 || j == n - 1) : k == 2 ? true : k == 3 ? (i / 12 == 1 && j >= 12) : k == 4 ? (j / 12 == 1) : (i >= n / 2 && j < n / 2); if (k == 2 && n > 100) in = (i + j) % (n / 42) == 0; if (n > 200 && k > 2 && (i + 5 * j) % 7) in = false; if (in) es.push_back({i, j, val(i, j, 0, 0, 6 + k)}); }
      one<1>(R, n, es, o); one<3>(R, n, es, o); one<4>(R, n, es, o); if (n % 7 == 0) one<7>(R, n, es, o);
    }
  }
  unlink(g_path.c_str());
  return R.finish();
}
