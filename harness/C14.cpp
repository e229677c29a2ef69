// Matrix Market files: every file of a bounded grammar, every truncation, every single-byte corruption, against
// an independent reference parser
#include "ref.hpp"
#include "coomatrix.hpp"
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace ref;
using namespace blasted;

static std::string g_path;
static void put(const std::string& s) { int fd = open(g_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } close(fd); }

/* ---- reference parser: EXACT (describes this matrix), REJECT (unsupported or malformed), OPEN (either is fine) ---- */
enum Verdict { EXACT, REJECT, OPEN };
struct Ent { int r, c; double v; };
struct Parsed { Verdict k; int nr = 0, nc = 0; std::vector<Ent> e; std::vector<double> a; };
static bool isint(const std::string& t) { if (t.empty() || t.size() > 9) return false; for (char c : t) if (c < '0' || c > '9') return false; return true; }
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> o; std::string c; for (char ch : s) { if (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == '\v' || ch == '\f') { if (!c.empty()) o.push_back(c), c.clear(); } else c += ch; } if (!c.empty()) o.push_back(c); return o; }
static Parsed parse(const std::string& f, bool dense) {
  Parsed P; P.k = REJECT;
  size_t nl = f.find('\n'); std::string head = f.substr(0, nl), rest = nl == std::string::npos ? "" : f.substr(nl + 1);
  auto h = split(head);
  if (h.size() != 5 || h[0] != "%%MatrixMarket" || h[2] != (dense ? "array" : "coordinate") || (h[3] != "real" && h[3] != "integer") || h[4] != "general") return P;
  bool open = h[1] != "matrix";
  std::string line; bool sized = false;
  while (!sized) {
    if (rest.empty()) return P;
    nl = rest.find('\n'); line = rest.substr(0, nl); rest = nl == std::string::npos ? "" : rest.substr(nl + 1);
    if (!line.empty() && line[0] == '%') continue;
    if (split(line).empty()) { if (rest.empty()) return P; continue; }
    sized = true;
  }
  auto z = split(line); size_t want = dense ? 2 : 3;
  if (z.size() < want) return P;
  if (z.size() > want) open = true;
  for (size_t k = 0; k < want; k++) if (!isint(z[k])) { if (isdigit(z[k][0]) || z[k][0] == '+') { P.k = OPEN; return P; } return P; }
  long nr = std::stol(z[0]), nc = std::stol(z[1]), nz = dense ? nr * nc : std::stol(z[2]);
  if (nr > 50000 || nc > 50000 || nz > 1000) { P.k = OPEN; return P; }
  P.nr = (int)nr; P.nc = (int)nc;
  // the entries, read like a stream of numbers; numbers that run into each other ("1.5" where an index is due) are OPEN
  size_t pos = 0; bool odd = false; const std::string& t = rest;
  auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; };
  auto num = [&](bool integer, double& x) -> bool {
    while (pos < t.size() && ws(t[pos])) pos++;
    size_t b = pos; int d = 0;
    if (pos < t.size() && (t[pos] == '-' || t[pos] == '+')) pos++;
    while (pos < t.size() && isdigit(t[pos])) pos++, d++;
    if (!integer) {
      if (pos < t.size() && t[pos] == '.') { pos++; while (pos < t.size() && isdigit(t[pos])) pos++, d++; }
      if (d && pos < t.size() && (t[pos] == 'e' || t[pos] == 'E')) { pos++; if (pos < t.size() && (t[pos] == '-' || t[pos] == '+')) pos++; int q = 0; while (pos < t.size() && isdigit(t[pos])) pos++, q++; if (!q || q > 3) odd = true;  }
    }
    if (!d) return false;
    if (d > 40 || (integer && d > 9)) odd = true;
    if (pos < t.size() && !ws(t[pos])) odd = true;
    if (!integer && h[3] == "integer" && t.substr(b, pos - b).find_first_of(".eE") != std::string::npos) open = true;  // not an integer
    x = odd ? 0 : strtod(t.substr(b, pos - b).c_str(), nullptr); if (std::isinf(x) || (x != 0 && std::fabs(x) < 2.3e-308 && std::fabs(x) != 2.2250738585072014e-308)) odd = true; return true;
  };
  for (long k = 0; k < nz; k++) {
    double a, b, v;
    if (dense) { if (!num(false, v)) { P.k = odd ? OPEN : REJECT; return P; } P.a.push_back(v); }
    else { if (!num(true, a) || !num(true, b) || !num(false, v)) { P.k = odd ? OPEN : REJECT; return P; } if (odd) { P.k = OPEN; return P; }
      Ent e{(int)a, (int)b, v}; if (e.r < 1 || e.r > nr || e.c < 1 || e.c > nc) return P; P.e.push_back({e.r - 1, e.c - 1, e.v}); }
    if (odd) { P.k = OPEN; return P; }
  }
  for (; pos < t.size(); pos++) if (!ws(t[pos])) { open = true; break; }
  std::sort(P.e.begin(), P.e.end(), [](const Ent& a, const Ent& b) { return a.r != b.r ? a.r < b.r : a.c < b.c; });
  for (size_t k = 1; k < P.e.size(); k++) if (P.e[k].r == P.e[k - 1].r && P.e[k].c == P.e[k - 1].c) { P.k = OPEN; return P; }
  P.k = open ? OPEN : EXACT; return P;
}
static std::string show(const std::string& f) { std::string o; for (char c : f) { if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += mc::fmt("\\x%02x", (unsigned char)c); else o += c; } return o; }

static void same(const COOMatrix<double,int>& A, const Parsed& P, const std::string& sh);
static void coo(mc::Runner& R, const std::string& f) {
  Parsed P = parse(f, false); put(f);
  mc::Cfg c; c.threads = 3; c.deviations = 1; c.max_execs = 20000; std::string sh = show(f);
  R.explore(c, [&]() {
    bool rej = false; std::string why; COOMatrix<double,int> A;
    try { A.readMatrixMarket(g_path); }
    catch (const std::exception& e) { rej = true; }
    mc::trans_add(1); mc::observe(rej ? 7 : 9 + P.e.size());
    if (rej && P.k == EXACT) mc::fail("a valid file was rejected: " + sh);
    if (!rej && P.k == REJECT) mc::fail("a malformed or unsupported file was read without error: " + sh);
    if (rej || P.k != EXACT) return;
    same(A, P, sh);
  });
}
static void same(const COOMatrix<double,int>& A, const Parsed& P, const std::string& sh) {
  {
    auto& E = A.getEntries(); auto& rp = A.getRowPtrs();
    if (A.numrows() != P.nr || A.numcols() != P.nc || A.numnonzeros() != (int)P.e.size() || E.size() != P.e.size() || (int)rp.size() != P.nr + 1) mc::fail("wrong dimensions read from " + sh);
    for (size_t k = 0; k < E.size(); k++) if (E[k].rowind != P.e[k].r || E[k].colind != P.e[k].c || E[k].value != P.e[k].v) mc::fail(mc::fmt("entry %zu is (%d,%d,%.17g), should be (%d,%d,%.17g) in ", k, E[k].rowind, E[k].colind, E[k].value, P.e[k].r, P.e[k].c, P.e[k].v) + sh);
    for (int i = 0, k = 0; i <= P.nr; i++) { while (k < (int)P.e.size() && P.e[k].r < i) k++; if (rp[i] != k) mc::fail(mc::fmt("row pointer %d is %d, should be %d in ", i, rp[i], k) + sh); }
  }
}
// one object reading several files, good and bad ones: the last good one is what it holds
static void again(mc::Runner& R, const std::vector<std::string>& fs, const std::vector<int>& order) {
  std::vector<Parsed> P; std::vector<std::string> names, sh; for (size_t i = 0; i < fs.size(); i++) { P.push_back(parse(fs[i], false)); std::string keep = g_path; g_path += mc::fmt(".%zu", i); put(fs[i]); names.push_back(g_path); g_path = keep; sh.push_back(show(fs[i])); }
  mc::Cfg c; c.threads = 3; c.deviations = 1; c.max_execs = 20000;
  R.explore(c, [&]() {
    COOMatrix<double,int> A;
    for (int k : order) {
      bool rej = false; try { A.readMatrixMarket(names[k]); } catch (const std::exception&) { rej = true; }
      mc::trans_add(1); mc::observe(rej ? 7 : 9 + P[k].e.size());
      if (rej != (P[k].k == REJECT)) mc::fail("a file is read differently by an object that has read another one: " + sh[k]);
      if (!rej) same(A, P[k], sh[k]);
    }
  });
  for (auto& n : names) unlink(n.c_str());
}
static void dense(mc::Runner& R, const std::string& f) {
  Parsed P = parse(f, true); put(f);
  mc::Cfg c; c.threads = 3; c.deviations = 1; c.max_execs = 20000; std::string sh = show(f);
  R.explore(c, [&]() {
    bool rej = false; device_vector<double> v;
    try { v = readDenseMatrixMarket<double>(g_path); } catch (const std::exception& e) { rej = true; }
    mc::trans_add(1); mc::observe(rej ? 7 : 9 + v.size());
    if (rej && P.k == EXACT) mc::fail("a valid vector file was rejected: " + sh);
    if (!rej && P.k == REJECT) mc::fail("a malformed or unsupported vector file was read without error: " + sh);
    if (rej || P.k != EXACT || P.nc != 1) return;
    if (v.size() != P.a.size()) mc::fail("wrong vector length read from " + sh);
    for (size_t k = 0; k < v.size(); k++) if (v[k] != P.a[k]) mc::fail("wrong vector entry read from " + sh);
  });
}
static void both(mc::Runner& R, const std::string& f) { coo(R, f); dense(R, f); }
static const char* HEAD = "%%MatrixMarket matrix coordinate real general\n";
static std::string body(int nr, int nc, const std::vector<std::string>& e) { std::string s = mc::fmt("%d %d %zu\n", nr, nc, e.size()); for (auto& x : e) s += x + "\n"; return s; }
static const char* NUMS[] = {"1", "-2.5", "3e1", "4.25E-1", "+5", "0.1", "-1e-3", "7."};

int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C14");
  const char* td = getenv("MC_TMP"); g_path = std::string(td ? td : "/tmp") + mc::fmt("/mm-%d.mtx", (int)getpid());
  // headers: every combination of tokens
  const char* T0[] = {"%%MatrixMarket", "%MatrixMarket", "MatrixMarket", "%%matrixmarket", ""};
  const char* T1[] = {"matrix", ""};
  const char* T2[] = {"coordinate", "array", "sparse", ""};
  const char* T3[] = {"real", "integer", "complex", "pattern", "double", ""};
  const char* T4[] = {"general", "symmetric", "skew-symmetric", "hermitian", "foo", ""};
  const char* T5[] = {"", "extra"};
  for (auto a : T0) for (auto c : T2) {
    if (!R.begin(mc::fmt("header/%s/%s", a, c))) continue;
    for (auto b : T1) for (auto d : T3) for (auto e : T4) for (auto x : T5) {
      std::string h; for (auto t : {a, b, c, d, e, x}) if (*t) h += (h.empty() ? "" : " ") + std::string(t);
      std::string D(d);
      both(R, h + "\n2 2 3\n1 1 1.5\n2 2 2.5\n1 2 -1\n"); both(R, h + "\n2 2 3\n1 1\n2 2\n1 2\n"); both(R, h + "\n3 1\n1.5\n2.5\n-4\n"); both(R, h + "\n2 2 1\n1 1 2 3\n"); both(R, h + "\n");
      both(R, h);
    }
  }
  // every pattern (empty rows, non-square shapes), every order of the entries of the small ones
  for (int nr = 0; nr <= 3; nr++) for (int nc = 0; nc <= 3; nc++) {
    for (long m0 = 0; m0 < (1L << (nr * nc)); m0 += 64) {
      if (!R.begin(mc::fmt("pattern/%dx%d/masks=%ld+", nr, nc, m0))) continue;
      for (long m = m0; m < (1L << (nr * nc)) && m < m0 + 64; m++) {
        std::vector<std::string> e; int k = 0;
        for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) if (m >> (i * nc + j) & 1) e.push_back(mc::fmt("%d %d %s", i + 1, j + 1, NUMS[(k++ + m) % 8]));
        std::sort(e.begin(), e.end()); size_t cap = R.thorough() ? 6 : 5;
        if (e.size() <= cap) do { coo(R, HEAD + body(nr, nc, e)); } while (std::next_permutation(e.begin(), e.end()));
        else for (size_t r = 0; r < e.size(); r++) { std::rotate(e.begin(), e.begin() + 1, e.end()); coo(R, HEAD + body(nr, nc, e)); std::reverse(e.begin(), e.end()); coo(R, HEAD + body(nr, nc, e)); std::reverse(e.begin(), e.end()); }
      }
    }
  }
  // larger matrices: enough entries for the general sorting path
  for (int n : {7, 20, 40}) for (int stride : {1, 3, 7, 11, 13}) {
    if (!R.begin(mc::fmt("large/n=%d/stride=%d", n, stride))) continue;
    for (int density = 2; density <= 5; density++) {
      std::vector<std::string> e; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i * 7 + j * 3 + i * j) % density == 0 && i % 6 != 4) e.push_back(mc::fmt("%d %d %g", i + 1, j + 1, val(i, j, 0, 0, 1)));
      std::vector<std::string> p; size_t L = e.size(); while (std::__gcd((long)L, (long)stride) != 1) { e.pop_back(); L--; } for (size_t k = 0; k < L; k++) p.push_back(e[k * stride % L]);
      if (L <= 1000) coo(R, HEAD + body(n, n, p));
    }
  }
  // comments, blank lines, separators, line ends around a fixed matrix
  const char* PRE[] = {"", "% a comment\n", "%\n% two\n", "\n", " \n%c\n\n", "%%%\n\t\n"};
  const char* SEP[] = {" ", "  ", "\t", " \t "};
  const char* EOL[] = {"\n", "\r\n", " \n", "\n\n"};
  for (auto pre : PRE) {
    if (!R.begin(std::string("space/") + show(pre))) continue;
    for (auto s : SEP) for (auto e : EOL) for (int lead = 0; lead < 2; lead++) for (int nofinal = 0; nofinal < 2; nofinal++) {
      std::string S(s), L = lead ? " " : "", f = std::string("%%MatrixMarket") + S + "matrix" + S + "coordinate" + S + "real" + S + "general" + (*e == '\r' ? "\r\n" : "\n") + pre + "2" + S + "3" + S + "3" + e + L + "2" + S + "3" + S + "-1.5e0" + e + L + "1" + S + "2" + S + "4" + e + L + "2" + S + "1" + S + "0.25" + (nofinal ? "" : e);
      coo(R, f);
      dense(R, std::string("%%MatrixMarket") + S + "matrix" + S + "array" + S + "real" + S + "general\n" + pre + "3" + S + "1" + e + L + "2" + e + L + "-0.5" + e + L + "1e2" + (nofinal ? "" : e));
    }
  }
  // long lines: comments, blank lines and separators of many lengths, many comment lines, numbers with all their digits, shapes with indices of several digits
  for (int len : {1, 60, 78, 79, 80, 81, 127, 128, 199, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 9000}) {
    if (!R.begin(mc::fmt("long/%d", len))) continue;
    std::string com = "%" + std::string(len, 'c') + "\n", dig = "%" + std::string(len, '7') + "\n", sp = "%" + std::string(len, ' ') + "1 1 1\n", bl = std::string(len, ' ') + "\n", w = std::string(len, ' ');
    for (auto& pre : {com, dig, sp, bl, com + bl + com, bl + dig}) { coo(R, HEAD + pre + "2 3 3\n2 3 -1.5e0\n1 2 4\n2 1 0.25\n"); dense(R, "%%MatrixMarket matrix array real general\n" + pre + "3 1\n2\n-0.5\n1e2\n"); }
    coo(R, HEAD + ("2" + w + "3" + w + "3" + w + "\n2" + w + "3" + w + "-1.5\n1 2" + w + "4" + w + "\n" + w + "2 1 0.25\n"));
    dense(R, "%%MatrixMarket matrix array real general\n" + w + "3" + w + "1" + w + "\n2" + w + "-0.5\n" + w + "1e2\n");
    coo(R, "%%MatrixMarket" + w + "matrix" + w + "coordinate" + w + "real" + w + "general" + w + "\n1 1 1\n1 1 2\n");
    std::string many; for (int k = 0; k < len; k++) many += k % 3 ? "% c\n" : "\n"; coo(R, HEAD + many + "2 3 1\n2 3 -1.5e0\n");
  }
  {
    const char* V[] = {"0", "-0", "0.0", "1e308", "-1.7976931348623157e308", "2.2250738585072014e-308", "1e-300", "0.1234567890123456789", "3.14159265358979312", "9007199254740993", "4294967297", "-2147483649", "123456789012345678901234567890", "1E+10", "1.e5", ".5", "-.5e-5", "0000012", "16777217"};
    if (R.begin("values")) for (auto v : V) for (auto d : {"real", "integer"}) {
      coo(R, std::string("%%MatrixMarket matrix coordinate ") + d + " general\n2 2 3\n1 1 " + v + "\n2 1 " + v + "\n2 2 1\n"); coo(R, std::string("%%MatrixMarket matrix coordinate ") + d + " general\n2 2 1\n1 2 " + v);
      dense(R, std::string("%%MatrixMarket matrix array ") + d + " general\n3 1\n" + v + "\n2\n" + v + "\n");
    }
    for (int n : {10, 99, 100, 101, 1000, 40000}) if (R.begin(mc::fmt("indices/%d", n))) {
      for (int m : {1, 5, n}) { std::vector<std::string> e; for (int k = 0; k < 12; k++) { int i = (int)((n - 1L) * ((k * 5) % 12) / 11), j = (int)((m - 1L) * ((k * 7 + 3) % 12) / 11); e.push_back(mc::fmt("%d %d %d", i + 1, j + 1, k + 1)); } std::sort(e.begin(), e.end()); if (m == n) { coo(R, HEAD + body(n, m, e)); std::reverse(e.begin(), e.end()); coo(R, HEAD + body(n, m, e)); }
        else { std::vector<std::string> f, g; for (int k = 0; k < 12; k++) { int i = (int)((n - 1L) * ((k * 5) % 12) / 11); f.push_back(mc::fmt("%d %d %d", i + 1, k % m + 1, k)); g.push_back(mc::fmt("%d %d %d", k % m + 1, i + 1, k)); } if (n >= 12) { coo(R, HEAD + body(n, m, f)); coo(R, HEAD + body(m, n, g)); } } }
    }
  }
  // torn files: every prefix; corrupt files: every byte replaced by / preceded by / deleted
  const std::string F[] = {std::string(HEAD) + "% c\n2 2 3\n1 1 1.5\n2 2 -2e1\n1 2 3\n", std::string(HEAD) + "\n3 4 4\n3 4 10\n1 1 0.5\n3 2 1\n1 3 -1\n",
                           "%%MatrixMarket matrix array real general\n%c\n3 1\n1.5\n-2e1\n3\n", "%%MatrixMarket matrix coordinate integer general\n2 2 2\n2 1 5\n1 2 -3\n"};
  const char SUB[] = {' ', '\n', '%', '-', '.', 'x', '0', '9', '\t', '+', 'e', '\0', (char)0xff};
  for (int q = 0; q < 4; q++) {
    if (R.begin(mc::fmt("torn/%d", q))) { for (size_t k = 0; k <= F[q].size(); k++) both(R, F[q].substr(0, k)); for (size_t k = 0; k < F[q].size(); k++) for (size_t l = k; l < F[q].size(); l += R.thorough() ? 1 : 5) { both(R, F[q].substr(0, k) + F[q].substr(l)); } }
    for (char ch : SUB) {
      if (!R.begin(mc::fmt("corrupt/%d/char=%d", q, (unsigned char)ch))) continue;
      for (size_t k = 0; k < F[q].size(); k++) {
        std::string g = F[q]; g[k] = ch; both(R, g); g = F[q]; g.insert(g.begin() + k, ch); both(R, g);
        if (ch == ' ' && k) { g = F[q]; g.erase(g.begin() + k); both(R, g); }
        if (R.thorough()) for (char c2 : {' ', '\n', '-', '1'}) for (size_t l = 0; l < F[q].size(); l += 3) { std::string h = F[q]; h[k] = ch; h[l] = c2; both(R, h); }
      }
    }
  }
  // sizes and indices out of range
  const char* Z[] = {"-1 2 1", "2 -1 1", "2 2 -1", "x 2 1", "2 2 x", "2 2", "2", "99999999999 2 1", "0 0 0", "1 1 0", "0 0 1", "2 2 1", "2 2 2 9"};
  const char* E[] = {"", "1 1 1\n", "0 1 1\n", "1 0 1\n", "3 1 1\n", "1 3 1\n", "-1 1 1\n", "1 1\n", "1\n", "1 1 x\n", "x 1 1\n", "1 1 1\n2 2 2\n", "2147483647 1 1\n", "1 99999999999 1\n", "1 1 1 1 1 1\n"};
  for (auto z : Z) { if (!R.begin(std::string("sizes/") + z)) continue; for (auto e : E) { coo(R, std::string(HEAD) + z + "\n" + e); dense(R, std::string("%%MatrixMarket matrix array real general\n") + z + "\n" + e); } }
  // one object, several files
  {
    std::vector<std::string> G = {std::string(HEAD) + "2 2 2\n1 1 1.5\n2 2 2\n", std::string(HEAD) + "4 3 5\n4 3 1\n1 1 2\n2 2 3\n1 2 4\n4 1 5\n", std::string(HEAD) + "1 1 0\n", std::string(HEAD) + "3 3 4\n1 1 1\n2 2 2\n9 1 3\n3 3 4\n", std::string(HEAD) + "5 5 3\n1 1 1\n2 2 2\n", "%%MatrixMarket matrix coordinate pattern general\n2 2 1\n1 1\n"};
    for (int a = 0; a < 6; a++) { if (!R.begin(mc::fmt("again/%d", a))) continue; for (int b = 0; b < 6; b++) for (int d = 0; d < 6; d++) again(R, G, {a, b, d}); }
  }
  // a file that cannot be opened
  if (R.begin("missing file")) {
    mc::Cfg c; c.threads = 1; R.explore(c, [&]() { bool r = false; COOMatrix<double,int> A; try { A.readMatrixMarket("/nonexistent/x.mtx"); } catch (const std::exception&) { r = true; } if (!r) mc::fail("reading a file that does not exist did not fail");
      r = false; try { readDenseMatrixMarket<double>("/nonexistent/x.mtx"); } catch (const std::exception&) { r = true; } if (!r) mc::fail("reading a vector file that does not exist did not fail"); });
  }
  unlink(g_path.c_str());
  return R.finish();
}
