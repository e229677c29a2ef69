// Level schedules
#include "ref.hpp"
#include "levelschedule.hpp"
using namespace ref;
#include "wide.hpp"
using ref::Pat;

static void verify(const Pat& c, int bs) {
  Mat m = make(c, bs, true, 1);
  In in(m);
  auto raw = in.raw();
  std::vector<int> lv = blasted::computeLevels<double, int>(&raw);
  int n = m.n;
  if (lv.empty() || lv.front() != 0 || lv.back() != n) mc::fail(mc::fmt("levels do not start at 0 and end at %d", n));
  for (size_t l = 0; l + 1 < lv.size(); l++) {
    if (lv[l] >= lv[l + 1] && n > 0) mc::fail(mc::fmt("level %zu is empty or reversed", l));
    for (int i = lv[l]; i < lv[l + 1]; i++) for (int j : c[i]) if (j != i && j >= lv[l] && j < lv[l + 1]) mc::fail(mc::fmt("rows %d and %d of level %zu are coupled", i, j, l));
  }
  mc::observe(mc::hash(lv.data(), lv.size() * 4, n));
  mc::trans_add(n);
  in.unchanged(); in.free_all();
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C06");
  const bool th = R.thorough();
  mc::Cfg one; one.threads = 3; one.deviations = 2; one.max_execs = 20000; one.check_leaks = true;   // (no parallel loop here so far)
  for (int n = 1; n <= (th ? 7 : 6); n++) {
    long N = 1L << (n * (n - 1) / 2), chunk = 128;
    for (long b = 0; b < N; b += chunk) {
      if (!R.begin(mc::fmt("n=%d/masks=%ld+", n, b))) continue;
      for (long k = b; k < N && k < b + chunk; k++) R.explore(one, [&]() { verify(symm_pattern(n, k), (k % 3) ? 1 : 4); });
    }
  }
  // larger graphs: bands, grids, arrows, disconnected pieces
  for (int n : {1, 2, 7, 20, 60}) for (int o = 0; o < 8; o++) {
    if (!R.begin(mc::fmt("large/n=%d/kind=%d", n, o))) continue;
    Pat p;
    if (o < 4) { static const std::vector<int> offs[4] = {{-1, 1}, {-3, 3}, {-5, -1, 1, 5}, {}}; p = band_pattern(n, offs[o]); }
    else { p = band_pattern(n, {}); for (int i = 0; i < n; i++) { int j = o == 4 ? 0 : o == 5 ? n - 1 : o == 6 ? i / 2 : (n - 1 - i);
      if (j != i) { p[i].push_back(j); p[j].push_back(i); } }
      for (auto& r : p) { std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); } }
    R.explore(one, [&]() { verify(p, 1); });
  }
  for (int n : {30, 46, 65, 130}) if (R.begin(mc::fmt("dense/n=%d", n))) R.explore(one, [&]() { verify(dense_pat(n, false), 1); verify(dense_pat(n, false), 4); });
  for (auto& F : sizes(1)) { Pat p = F.pat; for (size_t i = 0; i < p.size(); i++) for (int j : p[i]) if (!std::count(p[j].begin(), p[j].end(), (int)i)) { p[j].push_back((int)i); std::sort(p[j].begin(), p[j].end()); } if (R.begin("sizes/" + F.name)) R.explore(one, [&]() { verify(p, 1); verify(p, 4); }); }
  for (auto& F : families(1, true)) { if (F.vc || !R.begin(mc::fmt("wide/%s", F.name.c_str()))) continue; R.explore(one, [&]() { verify(F.pat, 1); verify(F.pat, 4); }); }
  return R.finish();
}
