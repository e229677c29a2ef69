// Scan, prefix-sum, inner sorting, search and maximum-norm helpers
#include "ref.hpp"
#include "helper_algorithms.hpp"
#include "blas/blas1.hpp"
#include "utils/prefix_sum.hpp"
#include <memory>
using namespace ref;
using namespace blasted;

static void prefix(mc::Runner& R) {
  const int maxn = R.thorough() ? 80 : 48;
  for (int T : {1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 23})
    for (int n = 0; n <= maxn; n++) {
      if (T <= 8 && T >= 4 && n > (R.thorough() ? 60 : 32)) continue;
      if (R.begin(mc::fmt("prefix_sum/n=%d/threads=%d", n, T))) {
        mc::Cfg c; c.threads = T; c.preempt = T <= 3 ? (R.thorough() ? 3 : 2) : (R.thorough() ? 2 : 1); c.check_leaks = true;
        if (T > 4) { c.preempt = 0; c.deviations = R.thorough() ? 2 : 1; }   // larger teams: all schedules with that many choices other than the default
        R.explore(c, [&]() {
          int* a = fresh<int>(n + 2); a[0] = -777; a[n + 1] = -778;   // guards directly around the array
          for (int i = 0; i < n; i++) a[i + 1] = (i * 7 + 3) % 11 - (i % 3 == 0 ? 4 : 0);
          std::vector<int> want(n); int s = 0; for (int i = 0; i < n; i++) { want[i] = s; s += a[i + 1]; }
          int* b = fresh<int>(n); for (int i = 0; i < n; i++) b[i] = a[i + 1];
          prefix_sum<int>(b, n);
          for (int i = 0; i < n; i++) if (b[i] != want[i]) mc::fail(mc::fmt("prefix_sum: entry %d is %d, should be %d", i, b[i], want[i]));
          mc::observe(mc::hash(b, n * sizeof(int)));
          free(a); free(b);
        });
      }
    }
}
static void scans(mc::Runner& R) {
  int maxn = R.thorough() ? 9 : 7;
  if (!R.begin("inclusive_scan")) return;
  mc::Cfg c; c.threads = 2; c.check_leaks = true;
  R.explore(c, [&]() {
    int n = mc::choose(maxn + 1);
    std::vector<int> v(n); device_vector<int> d(n); std::vector<int> want(n); int s = 0;
    for (int i = 0; i < n; i++) { v[i] = d[i] = mc::choose(3) - 1 + (i == 2); s += v[i]; want[i] = s; }
    const std::vector<int> orig(v);
    std::vector<int> w = internal::inclusive_scan<int>(orig);
    if (w != want) mc::fail("inclusive_scan (copying): wrong sums");
    for (size_t i = 0; i < v.size(); i++) if (orig[i] != v[i]) mc::fail("inclusive_scan (copying) modified its argument");
    internal::inclusive_scan(v); internal::inclusive_scan(d);
    if (v != want) mc::fail("inclusive_scan: wrong sums");
    for (int i = 0; i < n; i++) if (d[i] != want[i]) mc::fail("inclusive_scan (aligned): wrong sums");
    mc::observe(mc::hash(want.data(), n * sizeof(int)));
  });
}
template <int bs> static void sorting(mc::Runner& R) {
  int maxn = bs == 1 ? (R.thorough() ? 8 : 7) : 5;
  for (int n = 0; n <= maxn; n++) {
    if (!R.begin(mc::fmt("sort_inner/bs=%d/n=%d", bs, n))) continue;
    mc::Cfg c; c.check_leaks = true; c.max_execs = 100000000;
    R.explore(c, [&]() {
      int* ci = fresh<int>(n); double* v = fresh<double>(n * bs * bs);
      std::vector<int> left; for (int i = 0; i < n; i++) left.push_back(i * i + 2 * i);   // distinct keys
      std::vector<std::pair<int, int>> in;
      for (int i = 0; i < n; i++) { int k = mc::choose((int)left.size()); ci[i] = left[k]; left.erase(left.begin() + k); for (int q = 0; q < bs * bs; q++) v[i * bs * bs + q] = ci[i] * 100 + q + 0.25; }
      internal::sortBlockInnerDimension<double, int, bs>(n, ci, v);
      for (int i = 0; i < n; i++) {
        if (ci[i] != i * i + 2 * i) mc::fail(mc::fmt("sort: index at position %d is %d, should be %d", i, ci[i], i * i + 2 * i));
        for (int q = 0; q < bs * bs; q++) if (v[i * bs * bs + q] != ci[i] * 100 + q + 0.25) mc::fail(mc::fmt("sort: the block of index %d was not moved with it (entry %d)", ci[i], q));
      }
      free(ci); free(v);
    });
  }
}
static void search(mc::Runner& R) {
  if (R.begin("inner_search/long")) R.run(1, [&]() {
    int n = 7 + mc::choose(120) * 2, s = mc::choose(3) * n / 5, e = n - mc::choose(3) * n / 5, t = mc::choose(5) * (n - 1) / 4;      // ascending, the target present or absent
    int* a = fresh<int>(n); for (int i = 0; i < n; i++) a[i] = 2 * i; 
    for (int odd = 0; odd < 2; odd++) { int pos = -42, want = !odd && t >= s && t < e ? t : -42; internal::inner_search<int>(a, s, e, 2 * t + odd, &pos);
      if (pos != want) mc::fail(mc::fmt("inner_search(%d..%d) for %d found %d, should be %d", s, e, 2 * t + odd, pos, want)); }
  });
  if (!R.begin("inner_search")) return;
  R.run(1, [&]() {
    int n = 1 + mc::choose(6), s = mc::choose(n + 1), e = s + mc::choose(n - s + 1), t = mc::choose(7);
    int* a = fresh<int>(n); for (int i = 0; i < n; i++) a[i] = (i * 5 + 2) % 7;
    int pos = -42, want = -42; for (int i = s; i < e; i++) if (a[i] == t) { want = i; break; }
    internal::inner_search<int>(a, s, e, t, &pos);
    if (pos != want) mc::fail(mc::fmt("inner_search(%d..%d) for %d found %d, should be %d", s, e, t, pos, want));
  });
}
// lengths around powers of two and beyond, for values of one sign (sums grow) and of both signs
static void long_scans(mc::Runner& R) {
  for (int T : {1, 2, 3, 4, 5, 8, 16, 23}) {
    if (!R.begin(mc::fmt("long/threads=%d", T))) continue;
    mc::Cfg c; c.threads = T; c.preempt = 0; c.deviations = 0; c.check_leaks = true;
    R.explore(c, [&]() {
      static const int L[] = {63, 64, 65, 97, 100, 127, 128, 129, 255, 257, 500, 1000, 1023, 1024, 1025, 4097};
      int n = L[mc::choose(16)], kind = mc::choose(3);
      std::vector<int> v(n), ex(n), in(n); int s = 0;
      for (int i = 0; i < n; i++) { v[i] = kind == 0 ? 1 : kind == 1 ? (i * 7919) % 1000 : (i % 2 ? -1 : 1) * (i * 31 % 57); ex[i] = s; s += v[i]; in[i] = s; }
      int* b = fresh<int>(n); for (int i = 0; i < n; i++) b[i] = v[i];
      prefix_sum<int>(b, n);
      for (int i = 0; i < n; i++) if (b[i] != ex[i]) mc::fail(mc::fmt("prefix_sum of %d numbers: entry %d is %d, should be %d", n, i, b[i], ex[i]));
      free(b);
      const std::vector<int> orig(v); std::vector<int> w = internal::inclusive_scan<int>(orig); if (w != in) mc::fail(mc::fmt("inclusive_scan (copying) of %d numbers: wrong sums", n));
      device_vector<int> d(n); for (int i = 0; i < n; i++) d[i] = v[i];
      internal::inclusive_scan(d); for (int i = 0; i < n; i++) if (d[i] != in[i]) mc::fail(mc::fmt("inclusive_scan (aligned) of %d numbers: wrong sums", n));
      internal::inclusive_scan(v); if (v != in) mc::fail(mc::fmt("inclusive_scan of %d numbers: wrong sums", n));
      mc::observe(mc::hash(in.data(), n * sizeof(int)));
    });
  }
}
// long inner dimensions: every rotation and reversal, organ pipes, interleavings
template <int bs> static void long_sorting(mc::Runner& R) {
  if (!R.begin(mc::fmt("sort_inner/long/bs=%d", bs))) return;
  mc::Cfg c; c.check_leaks = true;
  R.explore(c, [&]() {
    static const int L[] = {6, 7, 9, 16, 17, 20, 33, 40, 65, 130, 300}; int n = L[mc::choose(11)], kind = mc::choose(5), r = n < 100 ? mc::choose(n) : mc::choose(4) * n / 4;
    int* ci = fresh<int>(n); double* v = fresh<double>(n * bs * bs);
    for (int i = 0; i < n; i++) { int k = (i + r) % n; ci[i] = kind == 0 ? k : kind == 1 ? n - 1 - k : kind == 2 ? (k % 2 ? n - 1 - k / 2 : k / 2) : kind == 3 ? (k < (n + 1) / 2 ? 2 * k : 2 * (k - (n + 1) / 2) + 1) : i == 0 ? r : i == r ? 0 : i; }
    for (int i = 0; i < n; i++) { ci[i] = 3 * ci[i] + ci[i] / 5; for (int q = 0; q < bs * bs; q++) v[i * bs * bs + q] = ci[i] * 100 + q + 0.25; }
    internal::sortBlockInnerDimension<double, int, bs>(n, ci, v);
    for (int i = 0; i < n; i++) {
      if (ci[i] != 3 * i + i / 5) mc::fail(mc::fmt("sort of %d: index at position %d is %d, should be %d", n, i, ci[i], 3 * i + i / 5));
      for (int q = 0; q < bs * bs; q++) if (v[i * bs * bs + q] != ci[i] * 100 + q + 0.25) mc::fail(mc::fmt("sort of %d: the block of index %d was not moved with it (entry %d)", n, ci[i], q));
    }
    free(ci); free(v);
  });
}
static void long_maxn(mc::Runner& R) {
  for (int T : {1, 2, 3, 4, 5, 8, 16, 23}) {
    if (!R.begin(mc::fmt("maxnorm/long/threads=%d", T))) continue;
    mc::Cfg c; c.threads = T; c.preempt = 0; c.deviations = 1; c.max_execs = 10000000;
    // the largest magnitude at every position of vectors of several lengths and magnitudes
    R.explore(c, [&]() {
      static const int L[] = {4, 5, 7, 16, 30, 31, 64, 65, 100}; static const double S[] = {1, 1e-30, 1e30, 1e-200};
      int n = L[mc::choose(9)], at = mc::choose(n), sg = mc::choose(2), k = mc::choose(T == 1 ? 4 : 1);
      device_vector<double> v(n); for (int i = 0; i < n; i++) v[i] = S[k] * val(i, at, n, k, 3); double m = 0; for (int i = 0; i < n; i++) m = std::max(m, std::fabs(v[i]));
      v[at] = (sg ? -1.25 : 1.25) * m;
      double got = maxnorm(v);
      if (got != 1.25 * m) mc::fail(mc::fmt("maxnorm of %d numbers is %g, should be %g (entry %d)", n, got, 1.25 * m, at));
      mc::observe(mc::hash(&got, 8));
    });
  }
}
static void maxn(mc::Runner& R) {
  for (int T = 1; T <= 3; T++) for (int n = 0; n <= 5; n++) {
    if (!R.begin(mc::fmt("maxnorm/n=%d/threads=%d", n, T))) continue;
    mc::Cfg c; c.threads = T; c.preempt = 2; c.check_leaks = true;
    const double al[4] = {-4.0, 0.5, -0.25, 3.0};
    // every assignment of the alphabet for short vectors, the rotations for longer ones
    R.explore(c, [&]() {
      device_vector<double> v(n); double want = 0;
      if (n <= 3 || (T == 1 && R.thorough())) for (int i = 0; i < n; i++) v[i] = al[mc::choose(4)]; else { int r = mc::choose(4 * n); for (int i = 0; i < n; i++) v[i] = al[1 + (i + r) % 2]; v[r % n] = al[r / n]; }
      for (int i = 0; i < n; i++) want = std::max(want, std::fabs(v[i]));
      double got = maxnorm(v);
      if (!(got == want || (want == 0 && got >= 0 && got < 1e-300))) mc::fail(mc::fmt("maxnorm is %g, should be %g", got, want));
      mc::observe(mc::hash(&got, 8));
    });
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C20");
  prefix(R); scans(R); sorting<1>(R); sorting<2>(R); sorting<4>(R); sorting<5>(R); sorting<7>(R); search(R); maxn(R);
  long_scans(R); long_sorting<1>(R); long_sorting<2>(R); long_sorting<4>(R); long_sorting<5>(R); long_sorting<7>(R); long_maxn(R);
  return R.finish();
}
