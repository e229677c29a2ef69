// Positions needed by every entry of the factorisation
#include "ref.hpp"
#include "ilu_pattern.hpp"
using namespace ref;
#include "wide.hpp"
using ref::Pat;
static void verify(const Mat& m) {
  In in(m); auto raw = in.raw();
  { const blasted::ILUPositions<int> L = blasted::compute_ILU_positions_CSR_CSR<double,int>(&raw);
    std::vector<int> ptr(1, 0); std::vector<std::pair<int,int>> want;
    if ((int)L.posptr.size() != m.nnz() + 1 || L.posptr[0] != 0) mc::fail("the list pointers do not start at 0 or have the wrong length");
    if (L.lowerp.size() != L.upperp.size() || (int)L.lowerp.size() != L.posptr.back()) mc::fail(mc::fmt("list arrays have lengths %zu, %zu, pointers end at %d", L.lowerp.size(), L.upperp.size(), L.posptr.back()));
    for (int i = 0; i < m.n; i++) for (int p = m.rp[i]; p < m.rp[i + 1]; p++) {
      int j = m.ci[p], lim = std::min(i, j); std::vector<std::pair<int,int>> w, g;
      for (int q = m.rp[i]; q < m.rp[i + 1]; q++) { int k = m.ci[q]; if (k >= lim) continue; int t = m.find(k, j); if (t >= 0) w.push_back({q, t}); }
      if (L.posptr[p + 1] < L.posptr[p] || L.posptr[p + 1] > (int)L.lowerp.size()) mc::fail(mc::fmt("list pointer of entry %d is %d", p + 1, L.posptr[p + 1]));
      for (int z = L.posptr[p]; z < L.posptr[p + 1]; z++) g.push_back({L.lowerp[z], L.upperp[z]});
      std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
      if (g != w) mc::fail(mc::fmt("entry (%d,%d): list has %zu products, the factorisation needs %zu%s", i, j, g.size(), w.size(), g.size() == w.size() ? " (different ones)" : ""));
      mc::trans_add(1);
    }
    mc::observe(mc::hash(L.lowerp.data(), L.lowerp.size() * 4, m.nnz())); }
  in.unchanged(); in.free_all();
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C17");
  mc::Cfg one; one.threads = 3; one.deviations = 2; one.max_execs = 20000; one.check_leaks = true;   // (no parallel loop here so far)
  for (int n = 1; n <= 4; n++) {
    long N = nmasks(n);
    for (long b = 0; b < N; b += 512) { if (!R.begin(mc::fmt("n=%d/masks=%ld+", n, b))) continue;
      for (long k = b; k < N && k < b + 512; k++) { Mat m = make(pattern(n, k), k % 5 ? 1 : 4, true, 1); R.explore(one, [&]() { verify(m); }); } }
  }
  { // five rows: all 2^20 patterns
    long N = nmasks(5), step = 1;
    for (long b = 0; b < N; b += 16384) { if (!R.begin(mc::fmt("n=5/masks=%ld+", b))) continue;
      for (long k = b + b / 16384 % step; k < N && k < b + 16384; k += step) { Mat m = make(pattern(5, k), 1, true, 1); R.explore(one, [&]() { verify(m); }); } }
  }
  for (int n : {6, 12, 40, 90}) for (int o = 0; o < 7; o++) {
    if (!R.begin(mc::fmt("large/n=%d/kind=%d", n, o))) continue;
    static const std::vector<int> offs[3] = {{-1, 1}, {-5, -4, -1, 1, 4, 5}, {-3, 2, 7}};
    Pat p; if (o < 3) p = band_pattern(n, offs[o]); else { p = band_pattern(n, {}); for (int i = 0; i < n; i++) { std::vector<int> r; for (int j = 0; j < n; j++) if (i == j || (o == 3 ? (i < 2 || j < 2) : o == 4 ? (j > n - 3 || i > n - 3) : o == 5 ? (i * 5 + j * 3) % 7 == 0 : n <= 40)) r.push_back(j); p[i] = r; } }
    Mat m = make(p, 1, true, 1); R.explore(one, [&]() { verify(m); });
  }
  for (auto& F : families(1)) { if ((F.vc && F.vc != VC_ZEROS) || !R.begin(mc::fmt("wide/%s", F.name.c_str()))) continue; Mat m = make(F, 1, true, 1); R.explore(one, [&]() { verify(m); }); }
  // more than 65535 products in all; rows that are long and reach each other
  for (int k = 0; k < 3; k++) if (R.begin(mc::fmt("long/%d", k))) { Mat m = make(k == 0 ? dense_pat(62, false) : k == 1 ? thick_arrow(150) : thick_arrow(300), 1, true, 1); R.explore(one, [&]() { verify(m); }); }
  for (auto& F : sizes(1)) if (R.begin("sizes/" + F.name)) { Mat m = make(F, 1, true, 1); R.explore(one, [&]() { verify(m); }); }
  return R.finish();
}
