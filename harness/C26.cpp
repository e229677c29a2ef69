// Matrices, vectors and options brought to PETSc, against a stand-in of PETSc
// check:extrasrc=src/utils/cmdoptions.cpp src/utils/blasted_petsc_io.cpp @mock/mock.cpp
// check:incdirs=mock/include mock
#include "ref.hpp"
#include "mock.hpp"
#include "utils/blasted_petsc_io.h"
#include "utils/cmdoptions.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <functional>
namespace ref {
static std::string g_path;
static void put(const std::string& s) { int fd = open(g_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } ::close(fd); }
struct Ent { int r, c; double v; };
static double val(int r, int c) { return 1.0 + ((r * 37 + c * 11) % 23) / 16.0 - (r == c ? 0 : 2); }
static std::string file(int R, int C, const std::vector<Ent>& e) { std::string s = mc::fmt("%%%%MatrixMarket matrix coordinate real general\n%d %d %zu\n", R, C, e.size()); for (auto& x : e) s += mc::fmt("%d %d %.17g\n", x.r + 1, x.c + 1, x.v); return s; }
static std::string show(const std::vector<Ent>& es) { std::string s; for (size_t k = 0; k < es.size() && k < 40; k++) s += mc::fmt(" (%d,%d)", es[k].r, es[k].c); return s; }
typedef PetscErrorCode (*Reader)(const char*, MPI_Comm, ::Mat*);
static const Reader READ[2] = {readMatFromCOOFile, readMatFromCOOFile_viaSR};
static void matrix(mc::Runner& R, int route, int bs, int rows, int cols, std::vector<Ent> es, int order, bool faults) {
  if (es.empty()) return;
  if (order == 1) std::reverse(es.begin(), es.end()); else if (order == 2) std::stable_sort(es.begin(), es.end(), [](const Ent& a, const Ent& b) { return a.c < b.c; });
  put(file(rows, cols, es)); mock::instead = nullptr; mock::ranks = 1; mock::fail_options = true;
  mock::options.clear(); if (bs > 0) mock::options.push_back({"-mat_block_size", std::to_string(bs)});
  long total = 0;
  for (long at = -1; at < (faults ? total : 0); at++) {
    mc::Cfg c; c.threads = 3; c.deviations = 1; c.check_leaks = at < 0;
    R.explore(c, [&]() {
      mock::calls = 0; mock::failed = false; mock::fail_at = at; ::Mat A = nullptr; int e = 0;
      try { e = READ[route](g_path.c_str(), PETSC_COMM_WORLD, &A); } catch (const std::exception& x) { if (at < 0) mc::fail(std::string("a valid matrix is refused: ") + x.what() + show(es)); e = 1; }
      mock::fail_at = -1;
      if (at >= 0) { mc::trans_add(1); if (mock::failed && !e) mc::fail(mc::fmt("an error of %s is swallowed", mock::failed_call)); return; }
      total = mock::calls;
      if (e) mc::fail(mc::fmt("error %d for a valid matrix;", e) + show(es));
      int r, k; std::map<std::pair<int,int>, double> v; if (!mock::content(A, r, k, v)) mc::fail("the matrix is not assembled");
      if (r != rows || k != cols) mc::fail(mc::fmt("the matrix is %d x %d, should be %d x %d", r, k, rows, cols));
      std::map<std::pair<int,int>, double> w; for (auto& x : es) w[{x.r, x.c}] = x.v;
      for (auto& x : w) { auto q = v.find(x.first); if (q == v.end() || q->second != x.second) mc::fail(mc::fmt("entry (%d,%d) is %s, should be %.17g;", x.first.first, x.first.second, q == v.end() ? "missing" : std::to_string(q->second).c_str(), x.second) + show(es)); }
      for (auto& x : v) if (!w.count(x.first) && x.second != 0) mc::fail(mc::fmt("entry (%d,%d) is not in the file;", x.first.first, x.first.second) + show(es));
      mc::trans_add(1); mc::observe(mc::hash(&rows, 4, v.size())); MatDestroy(&A);
    });
  }
}
static std::vector<Ent> mask(int n, long m) { std::vector<Ent> e; for (int i = 0; i < n * n; i++) if (m >> i & 1) e.push_back({i / n, i % n, val(i / n, i % n)}); return e; }
static void vectors(mc::Runner& R, int n, int an) {      // an: rows of the matrix given; -1: none
  std::string s = mc::fmt("%%%%MatrixMarket matrix array real general\n%d 1\n", n); for (int i = 0; i < n; i++) s += mc::fmt("%.17g\n", val(i, 2 * i)); put(s);
  mock::instead = nullptr; mock::ranks = 1; mock::options.clear(); long total = 0;
  for (long at = -1; at < total; at++) {
    mc::Cfg c; c.threads = 3; c.deviations = 1; c.check_leaks = at < 0 && !(an >= 0 && an < n);
    R.explore(c, [&]() {
      ::Mat A = nullptr; mock::fail_at = -1; if (an >= 0) { MatCreate(PETSC_COMM_SELF, &A); MatSetSizes(A, an, an, an, an); MatSetUp(A); }
      mock::calls = 0; mock::failed = false; mock::fail_at = at; ::Vec v = nullptr; int e = 0;
      try { e = readVecFromFile(g_path.c_str(), PETSC_COMM_WORLD, A, &v); } catch (const std::exception& x) { if (at < 0) mc::fail(std::string("a valid vector is refused: ") + x.what()); e = 1; }
      mock::fail_at = -1; mc::trans_add(1);
      if (at >= 0) { if (mock::failed && !e) mc::fail(mc::fmt("an error of %s is swallowed", mock::failed_call)); return; }
      if (an >= 0 && an < n) { if (!e) mc::fail("a vector longer than the matrix is accepted"); return; }
      if (e) mc::fail(mc::fmt("error %d for a valid vector", e));
      total = mock::calls;
      if (v->n != (an >= 0 ? an : n) || !v->assembled) mc::fail("wrong size, or not assembled");
      for (int i = 0; i < v->n; i++) if (v->a[i] != (i < n ? val(i, 2 * i) : 0)) mc::fail(mc::fmt("entry %d is %.17g", i, v->a[i]));
      mc::observe(mc::hash(v->a, v->n * 8)); VecDestroy(&v); if (A) MatDestroy(&A);
    });
  }
}
enum What { ISDEF, INT, REAL, BOOL, STR, ARR, OPTARR };
static void option(mc::Runner& R, What w, const char* value, int len) {       // value: nullptr if not given
  mock::instead = nullptr; mock::ranks = 1; mock::fail_options = true; mock::options.clear(); mock::options.push_back({"-other", "5"}); if (value) mock::options.push_back({"-opt", value}); mock::options.push_back({"-opt2", "9"});
  for (long at = -1; at < 3; at++) {
    mc::Cfg c; c.threads = 3; c.deviations = 1; c.check_leaks = true;
    R.explore(c, [&]() {
      mock::calls = 0; mock::errors_raised = 0; mock::failed = false; mock::fail_at = at; mc::trans_add(1);
      bool input = false, other = false, res = false; int i = 0; double d = 0; std::string s; std::vector<int> a;
      try { switch (w) {
        case ISDEF: res = blasted::parsePetscCmd_isDefined("-opt"); break; case INT: i = blasted::parsePetscCmd_int("-opt"); break; case REAL: d = blasted::parseOptionalPetscCmd_real("-opt", 0.375); break;
        case BOOL: res = blasted::parsePetscCmd_bool("-opt"); break; case STR: s = blasted::parsePetscCmd_string("-opt", len); break; case ARR: a = blasted::parsePetscCmd_intArray("-opt", len); break; default: a = blasted::parseOptionalPetscCmd_intArray("-opt", len); }
      } catch (const blasted::InputNotGivenError&) { input = true; } catch (const std::exception&) { other = true; }
      mock::fail_at = -1;
      if (mock::failed) { if (!other) mc::fail("an error of PETSc is not turned into an exception"); return; }
      bool given = value != nullptr; std::string v = given ? value : "";
      if (w == ISDEF) { if (input || other || res != given) mc::fail("wrong answer to whether an option is given"); return; }
      if ((mock::errors_raised > 0) != other) mc::fail(other ? "an option that is given properly, or missing, is reported as an error of PETSc" : "an error of PETSc is not turned into an exception"); if (other) return;
      bool missing = !given || (v.empty() && (w == INT || w == REAL));
      if (w == REAL || w == OPTARR) { if (input) mc::fail("a missing optional input is reported as an error"); if (missing && w == REAL && d != 0.375) mc::fail("the default is not used"); if (missing && w == OPTARR && !a.empty()) mc::fail("values are returned although none were given"); }
      else if (missing != input) mc::fail(missing ? "a missing input is not reported" : "a given input is reported as missing");
      if (missing || input) return;
      if (w == INT && i != atoi(value)) mc::fail(mc::fmt("%d instead of %s", i, value)); if (w == REAL && d != atof(value)) mc::fail(mc::fmt("%g instead of %s", d, value));
      if (w == BOOL && res != (v == "" || v == "true" || v == "1")) mc::fail("wrong truth value");
      if (w == STR && s != v.substr(0, len)) mc::fail("'" + s + "' instead of '" + v.substr(0, len) + "'");
      if (w == ARR || w == OPTARR) { std::vector<int> want; const char* q = value; while (*q && (int)want.size() < len) { char* e; want.push_back((int)strtol(q, &e, 10)); q = *e == ',' ? e + 1 : e; } if (a != want) mc::fail(mc::fmt("%zu values read from '%s' with at most %d", a.size(), value, len)); }
      mc::observe(i + (int)d + s.size() + a.size());
    });
  }
}
int run(int argc, char** argv) {
  mc::Runner R(argc, argv, "C26");
  const bool th = R.thorough();
  const char* tmp = getenv("MC_TMP"); g_path = std::string(tmp ? tmp : ".") + "/C26-" + std::to_string(getpid()) + ".mtx";
  static const char* RN[2] = {"direct", "rows"};
  for (int route = 0; route < 2; route++) {
    for (int bs : {0, 1, 2, 3, 4, 5, 7}) for (int n = 1; n <= 3; n++) {
      if (bs > 1 && n % bs && !(route == 1 && (bs == 2 || bs == 5))) continue;       // PETSc itself needs whole blocks
      if (!R.begin(mc::fmt("matrix/%s/bs=%d/n=%d", RN[route], bs, n))) continue;
      for (long m = 1; m < (1l << (n * n)); m++) for (int o = 0; o < 3; o++) matrix(R, route, bs, n, n, mask(n, m), o, o == 0 && (m % 7 == 1 || th));
    }
    // one and two block-rows: all choices of up to three entries
    for (int bs : {3, 4, 7}) for (int nb = 1; nb <= 2; nb++) {
      int N = bs * nb; if (!R.begin(mc::fmt("entries/%s/bs=%d/rows=%d", RN[route], bs, N))) continue;
      long n = N * N; for (long a = 0; a < n; a++) { matrix(R, route, bs, N, N, {{(int)a / N, (int)a % N, val(a / N, a % N)}}, 0, a % 5 == 0);
        for (long b = a + 1; b < n; b++) { if (!th && N > 4 && (a * 7 + b) % (N > 8 ? 13 : 3)) continue; std::vector<Ent> e = {{(int)a / N, (int)a % N, val(a / N, a % N)}, {(int)b / N, (int)b % N, val(b / N, b % N)}}; matrix(R, route, bs, N, N, e, (int)((a + b) % 3), false); } }
    }
    // full blocks on every block pattern
    for (int bs : {3, 4, 7}) for (int nb = 1; nb <= 3; nb++) {
      int N = bs * nb; if (!R.begin(mc::fmt("blocks/%s/bs=%d/rows=%d", RN[route], bs, N))) continue;
      for (long m = 1; m < (1l << (nb * nb)); m++) { std::vector<Ent> e; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (m >> ((i / bs) * nb + j / bs) & 1) e.push_back({i, j, val(i, j)}); matrix(R, route, bs, N, N, e, (int)(m % 3), m % 16 == 1); }
    }
  }
  // long rows and columns, dense and diagonal rows next to each other
  for (int route = 0; route < 2; route++) for (int bs : {1, 3, 4, 7}) for (int nb : {9, 21, 32, 33, 40, 64, 65, 100, 129, 257}) {
    if (nb * bs > 400 && !th) continue;
    if (!R.begin(mc::fmt("long/%s/bs=%d/rows=%d", RN[route], bs, nb))) continue;
    int N = nb * bs; for (int kind = 0; kind < 4; kind++) { std::vector<Ent> e; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { bool in = i == j || (kind == 0 ? i == 1 : kind == 1 ? j == N - 2 : kind == 2 ? i == N - 1 || (i < 3 && j % 2) : i >= bs && i < 2 * bs && j != 4); if (in) e.push_back({i, j, val(i, j) + i * 1e-3 + j}); } matrix(R, route, bs, N, N, e, kind % 3, false); }
  }
  if (R.begin("rectangular")) for (int r = 1; r <= 3; r++) for (int c = 1; c <= 3; c++) for (long m = 1; m < (1l << (r * c)); m++) { std::vector<Ent> e; for (int i = 0; i < r * c; i++) if (m >> i & 1) e.push_back({i / c, i % c, val(i / c, i % c)}); matrix(R, 0, 0, r, c, e, (int)(m % 3), false); }
  if (R.begin("ranks")) { put(file(2, 2, mask(2, 15))); mock::options.clear(); mock::ranks = 2; mock::instead = nullptr; mock::fail_at = -1; mc::Cfg c; c.threads = 1; R.explore(c, [&]() { mc::trans_add(1); ::Mat A = nullptr; bool ref = false; try { ref = readMatFromCOOFile_viaSR(g_path.c_str(), PETSC_COMM_WORLD, &A) != 0; } catch (const std::exception&) { ref = true; } if (!ref) mc::fail("several ranks are accepted"); }); mock::ranks = 1; }
  if (R.begin("vectors")) for (int n = 1; n <= (th ? 40 : 8); n++) for (int an = -1; an <= n + 1; an++) vectors(R, n, an);
  if (R.begin("vectors/long")) for (int n : {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025}) for (int an : {-1, n, n + 1}) vectors(R, n, an);
  if (R.begin("options")) {
    static const char* V[] = {nullptr, "", "0", "1", "7", "-3", "12,5", "12,5,-1", "1,2,3,4,5", "true", "false", "word", "a longer word", "2.5", "-1e-3", "abcd", "abcde"};
    for (int w = 0; w <= OPTARR; w++) for (auto v : V) for (int len = 1; len <= 6; len++) option(R, (What)w, v, len);
    std::string big = "x", arr = "0"; for (int k = 1; k < 300; k++) { big += (char)('a' + k % 26); arr += "," + std::to_string(k * 7 - 500); }
    for (int len : {7, 8, 9, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 200, 255, 256, 299, 300, 301}) { option(R, STR, big.c_str(), len); option(R, STR, "ab", len); option(R, ARR, arr.c_str(), len); option(R, OPTARR, arr.c_str(), len); option(R, ARR, "4,5", len); option(R, OPTARR, "4,5", len); }
    for (auto v : {"2147483647", "-2147483647", "65536", "1000000"}) { option(R, INT, v, 1); option(R, ARR, v, 3); }
    for (auto v : {"1e300", "-2.2250738585072014e-308", "123456789.125", "0.1"}) option(R, REAL, v, 1);
  }
  if (R.begin("errors")) { mc::Cfg c; c.threads = 1; mock::fail_at = -1; for (int e = -3; e <= 110; e++) R.explore(c, [&]() { mc::trans_add(1); bool t = false; try { blasted::petsc_throw(e); } catch (const std::exception& x) { t = true; if (!*x.what()) mc::fail("an exception without a message"); } if (t != (e != 0)) mc::fail(mc::fmt("error %d of PETSc %s", e, t ? "throws" : "does not throw")); t = false; try { blasted::file_input_throw(e); } catch (const blasted::InputNotGivenError&) { t = true; } if (t != (e == 0)) mc::fail("wrong verdict on reading a file"); }); }
  unlink(g_path.c_str());
  return R.finish();
}
}
int main(int argc, char** argv) { return ref::run(argc, argv); }
