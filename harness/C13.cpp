// Ownership histories of array views, matrix storage objects, matrices and views: every sequence of operations
// up to a depth, over a few slots, against a model that knows who owns which block
#include "ref.hpp"
#include "blockmatrices.hpp"
#include "device_container.hpp"
#include <boost/align/aligned_alloc.hpp>
#include <memory>
using namespace ref;
using namespace blasted;

/* ---------------- array views ---------------- */
template <class T> static T* aligned(size_t n) { return (T*)boost::alignment::aligned_alloc(64, n * sizeof(T)); }
struct ASlot { std::unique_ptr<ArrayView<double>> a; std::unique_ptr<ArrayView<const double>> c; bool owned = false; std::vector<double> val; const double* at = nullptr; };
struct AWorld {
  static const int S = 3; ASlot s[S]; double* ext[2]; std::vector<double> extv[2]; double serial = 1; long base;
  AWorld() { for (int k = 0; k < 2; k++) { extv[k].assign(3 + k, 100.0 + k); ext[k] = dup(extv[k]); } base = mc::live_blocks(); }
  int heap_objects() { int n = 0; for (auto& x : s) n += (x.a ? 1 : 0) + (x.c ? 1 : 0); return n; }
  void check() {
    long own = 0, none = 0, valblocks = 0;      // none: owned arrays of length 0, which may or may not have a block
    for (int i = 0; i < S; i++) {
      ASlot& x = s[i]; if (x.val.capacity()) valblocks++;
      if (!x.a && !x.c) continue;
      int len = x.a ? x.a->size() : x.c->size();
      if (len != (int)x.val.size()) mc::fail(mc::fmt("array view reports length %d, should be %zu", len, x.val.size()));
      if (x.owned) (len ? own : none)++;
      if (len == 0) continue;
      const double* p = x.a ? &(*static_cast<const ArrayView<double>*>(x.a.get()))[0] : &(*x.c)[0];
      if (x.at && p != x.at) mc::fail("array view does not refer to the memory it was given");
      if (!mc::arena_ok(p, len * 8)) mc::fail("array view refers to released memory");
      for (int k = 0; k < len; k++) { double v = x.a ? (*x.a)[k] : (*x.c)[k]; if (v != x.val[k]) mc::fail(mc::fmt("array view entry %d reads %g, should be %g", k, v, x.val[k])); }
      if (x.owned && x.a && ((uintptr_t)p & 63)) mc::fail("owned array is not aligned to the cache line");
    }
    for (int k = 0; k < 2; k++) { bool w = false; for (auto& x : s) if (x.at == ext[k]) { w = true; } if (!mc::arena_ok(ext[k], extv[k].size() * 8)) mc::fail("a wrapped array was released"); (void)w;
      for (size_t q = 0; q < extv[k].size(); q++) if (ext[k][q] != extv[k][q]) mc::fail("a wrapped array was modified"); }
    long live = mc::live_blocks() - base - heap_objects() - valblocks;
    if (live < blocks_for(own) || live > blocks_for(own + none)) mc::fail(mc::fmt("%ld data blocks are alive, should be %ld", live, blocks_for(own)));
  }
  long per = 1;                     // arena blocks per aligned allocation
  long blocks_for(long own) { return own * per; }
  void destroy(int i) { s[i].a.reset(); s[i].c.reset(); s[i].owned = false; s[i].val = std::vector<double>(); s[i].at = nullptr; }
  void fill(int i, int n) { s[i].val.assign(n, 0.0); for (int k = 0; k < n; k++) { s[i].val[k] = serial++; if (n) (*s[i].a)[k] = s[i].val[k]; } s[i].at = n ? &(*s[i].a)[0] : nullptr; }
  // number of alternatives is fixed; an inapplicable one is a no-op (returns false: prune)
  static const int NOPS = 45;
  bool op(int o) {
    int i = o % 3, kind = o / 3; ASlot& x = s[i]; ASlot& y = s[(i + 1) % 3];
    switch (kind) {
      case 0: destroy(i); x.a.reset(new ArrayView<double>()); return true;
      case 1: destroy(i); x.a.reset(new ArrayView<double>(4)); x.owned = true; fill(i, 4); return true;
      case 2: destroy(i); x.a.reset(new ArrayView<double>(ext[0], 3)); x.val = extv[0]; x.at = ext[0]; return true;
      case 3: destroy(i); { double* p = aligned<double>(2); x.a.reset(new ArrayView<double>(p, 2, true)); x.owned = true; fill(i, 2); } return true;
      case 4: if (!y.a) return false; destroy(i); x.a.reset(new ArrayView<double>(std::move(*y.a))); x.val = y.val; x.owned = y.owned; x.at = y.at; y.val = std::vector<double>(); y.owned = false; y.at = nullptr; return true;
      case 5: if (!y.a) return false; destroy(i); x.c.reset(new ArrayView<const double>(move_to_const(std::move(*y.a)))); x.val = y.val; x.owned = y.owned; x.at = y.at; y.val = std::vector<double>(); y.owned = false; y.at = nullptr; return true;
      case 6: if (!x.a) return false; x.a->resize(5); x.owned = true; x.at = nullptr; fill(i, 5); return true;
      case 7: if (!x.a) return false; x.a->wrap(ext[1], 4); x.owned = false; x.val = extv[1]; x.at = ext[1]; return true;
      case 8: if (!x.a) return false; { double* p = aligned<double>(6); x.a->take_control(p, 6); x.owned = true; x.at = p; fill(i, 6); } return true;
      case 9: if (!x.a && !x.c) return false; destroy(i); return true;
      case 10: if (!y.c) return false; destroy(i); x.c.reset(new ArrayView<const double>(std::move(*y.c))); x.val = y.val; x.owned = y.owned; x.at = y.at; y.val = std::vector<double>(); y.owned = false; y.at = nullptr; return true;
      case 11: destroy(i); x.a.reset(new ArrayView<double>(0)); x.owned = true; return true;
      case 12: if (!x.a) return false; x.a->resize(0); x.owned = true; x.at = nullptr; x.val = std::vector<double>(); return true;
      case 13: if (!x.a) return false; x.a->wrap(ext[0], 0); x.owned = false; x.at = nullptr; x.val = std::vector<double>(); return true;
      case 14: if (!x.a) return false; x.a->resize(4); x.owned = true; x.at = nullptr; fill(i, 4); return true;
    }
    return false;
  }
};

/* ---------------- storage objects, matrices, views ---------------- */
typedef SRMatrixStorage<double,int> St; typedef SRMatrixStorage<const double,const int> CSt;
template <int bs> struct VT { typedef BSRMatrixView<double,int,bs,RowMajor> type; };
template <> struct VT<1> { typedef CSRMatrixView<double,int> type; };
template <int bs> struct MSlot {
  typedef BSRMatrix<double,int,bs> M; typedef typename VT<bs>::type V;
  std::unique_ptr<St> st; std::unique_ptr<CSt> cst; std::unique_ptr<M> m; std::unique_ptr<V> v;
  int mat = -1;              // which reference matrix it holds; -1: nothing / moved from
  int part = 0;              // 0 whole, -1 / +1 triangular view
  bool owned = false; int lender = -1, lgen = 0;   // shares memory of slot `lender`, valid while its generation is lgen
  bool any() const { return st || cst || m || v; }
};
template <int bs> struct MWorld {
  static const int S = 3; MSlot<bs> s[S]; int gen[S] = {0, 0, 0};
  const Mat* ref[2]; const Mat* neg[2]; In* in[2]; double* x[2];
  Vec y[2][3];
  typedef typename MSlot<bs>::M M; typedef typename MSlot<bs>::V V;
  bool valid(int i) { auto& k = s[i]; return k.mat >= 0 && (k.lender < 0 || (gen[k.lender] == k.lgen && valid_lender(k.lender))); }
  bool valid_lender(int) { return true; }
  void clear(int i) { auto& k = s[i]; k.st.reset(); k.cst.reset(); k.m.reset(); k.v.reset(); k.mat = -1; k.owned = false; k.lender = -1; k.part = 0; gen[i]++; }
  template <class Q> void arrays(const Q& q, const MSlot<bs>& k, const char* w) {
    const Mat& r = *ref[k.mat];
    if (q.nbrows != r.n || q.nbstored != r.nnz()) mc::fail(mc::fmt("%s: wrong dimensions", w));
    const int* rp = &q.browptr[0]; const int* re = &q.browendptr[0];
    if (!mc::arena_ok(rp, r.n * 4) || !mc::arena_ok(re, r.n * 4) || !mc::arena_ok(&q.bcolind[0], r.nnz() * 4) || !mc::arena_ok(&q.diagind[0], r.n * 4) || !mc::arena_ok(&q.vals[0], r.v.size() * 8)) mc::fail(mc::fmt("%s refers to released memory", w));
    for (int i = 0; i < r.n; i++) { int b = k.part > 0 ? r.di[i] : r.rp[i], e = k.part < 0 ? r.di[i] + 1 : r.rp[i + 1]; if (rp[i] != b || re[i] != e || q.diagind[i] != r.di[i]) mc::fail(mc::fmt("%s: wrong row ranges", w)); }
    for (int p = 0; p < r.nnz(); p++) if (q.bcolind[p] != r.ci[p]) mc::fail(mc::fmt("%s: wrong columns", w));
    for (size_t p = 0; p < r.v.size(); p++) if (q.vals[p] != r.v[p]) mc::fail(mc::fmt("%s: wrong values", w));
  }
  template <class A> void prod(const A& a, const MSlot<bs>& k, const char* w) {
    const Mat& r = *ref[k.mat]; if (a.dim() != r.N()) mc::fail(mc::fmt("%s: wrong dimension", w));
    double* z = fresh<double>(r.N()); a.apply(x[k.mat], z); expect(z, y[k.mat][k.part + 1], w); free(z);
  }
  void check() {
    for (int i = 0; i < S; i++) if (valid(i)) {
      auto& k = s[i];
      if (k.st) arrays(*k.st, k, "storage"); if (k.cst) arrays(*k.cst, k, "const storage");
      if (k.m) { arrays(k.m->getRawSRMatrix(), k, "matrix"); if (bs == 1 || true) prod(*k.m, k, "matrix product"); }
      if (k.v) { arrays(k.v->getSRStorage(), k, "matrix view"); prod(*k.v, k, "view product"); }
    }
    for (int k = 0; k < 2; k++) in[k]->unchanged();
  }
  void take(int to, int from) { s[to].mat = s[from].mat; s[to].owned = s[from].owned; s[to].lender = s[from].lender; s[to].lgen = s[from].lgen; s[to].part = s[from].part;
    // whatever shared memory with `from` now shares with `to`
    gen[to]++; for (int q = 0; q < S; q++) if (q != to && s[q].lender == from && s[q].lgen == gen[from]) { s[q].lender = to; s[q].lgen = gen[to]; }
    s[from].mat = -1; s[from].owned = false; s[from].lender = -1; s[from].part = 0; }
  static const int KINDS = 16, NOPS = KINDS * 3;
  template <class T> static ArrayView<T> owned_copy(const std::vector<T>& v) { ArrayView<T> a((int)v.size()); for (size_t k = 0; k < v.size(); k++) a[(int)k] = v[k]; return a; }
  bool op(int o) {
    int i = o % 3, kind = o / 3, j = (i + 1) % 3; auto& a = s[i]; auto& b = s[j]; 
    bool bok = b.any() && valid(j);
    auto start = [&](int mat, bool owned) { a.mat = mat; a.owned = owned; };
    switch (kind) {
      case 0: clear(i); { const Mat& r = *ref[0]; a.st.reset(new St(in[0]->rp, in[0]->ci, in[0]->v, in[0]->di, in[0]->rp + 1, r.n, r.nnz(), r.nnz(), bs)); start(0, false); } return true;
      case 1: clear(i); { const Mat& r = *ref[1]; ArrayView<int> rp = owned_copy(r.rp), ci = owned_copy(r.ci), di = owned_copy(r.di); ArrayView<double> v = owned_copy(r.v);
          ArrayView<int> re(&rp[1], r.n); a.st.reset(new St(std::move(rp), std::move(ci), std::move(v), std::move(di), std::move(re), r.n, r.nnz(), r.nnz())); start(1, true); } return true;
      case 2: if (!b.st || !bok) return false; clear(i); if (!valid(j)) return true; a.st.reset(new St(std::move(*b.st))); take(i, j); return true;
      case 3: if (!b.st || !bok) return false; clear(i); if (!valid(j)) return true; a.cst.reset(new CSt(move_to_const(std::move(*b.st)))); take(i, j);
        if (b.st->nbrows || b.st->nnzb || b.st->nbstored) mc::fail("storage moved to const is not null"); return true;
      case 4: if (!b.st || !bok) return false; clear(i); if (!valid(j)) return true; a.cst.reset(new CSt(share_with_const(*b.st, bs))); a.mat = b.mat; a.part = b.part; a.lender = b.lender >= 0 ? b.lender : b.owned ? j : -1; a.lgen = b.lender >= 0 ? b.lgen : gen[j]; return true;
      case 5: if (!b.cst || !bok) return false; clear(i); if (!valid(j)) return true; a.cst.reset(new CSt(std::move(*b.cst))); take(i, j); return true;
      case 6: case 7: if (!b.cst || !bok || b.part) return false; clear(i); if (!valid(j)) return true;
        a.cst.reset(new CSt(kind == 6 ? getLowerTriangularView<double,int>(std::move(*b.cst)) : getUpperTriangularView<double,int>(std::move(*b.cst))));   // documented: reuses the arrays, keeps the argument
        a.mat = b.mat; a.part = kind == 6 ? -1 : 1; a.lender = b.lender >= 0 ? b.lender : b.owned ? j : -1; a.lgen = b.lender >= 0 ? b.lgen : gen[j]; return true;
      case 8: if (!b.cst || !bok) return false; clear(i); if (!valid(j)) return true; a.v.reset(new V(std::move(*b.cst))); take(i, j); return true;
      case 9: if (!b.st || !bok || b.part) return false; clear(i); if (!valid(j)) return true; a.m.reset(new M(std::move(*b.st))); take(i, j); return true;
      case 10: if (!b.m || !bok) return false; clear(i); if (!valid(j)) return true; a.m.reset(new M(*b.m)); a.mat = b.mat; a.owned = true; return true;
      case 11: clear(i); { const Mat& r = *ref[0]; a.m.reset(new M(r.n, in[0]->rp, in[0]->ci, in[0]->v, in[0]->di)); start(0, false); } return true;
      case 12: clear(i); { const Mat& r = *ref[1]; auto al = [](const auto& v) { auto* p = aligned<typename std::decay<decltype(v[0])>::type>(v.size()); for (size_t k = 0; k < v.size(); k++) p[k] = v[k]; return p; };
          int* rp = al(r.rp); RawBSRMatrix<double,int> raw(rp, al(r.ci), al(r.v), al(r.di), rp + 1, r.n, r.nnz(), r.nnz()); a.m.reset(new M(raw)); start(1, true); } return true;
      case 13: clear(i); { const Mat& r = *ref[1]; a.v.reset(new V(r.n, in[1]->rp, in[1]->ci, in[1]->v, in[1]->di)); start(1, false); } return true;
      case 14: if (!a.any()) return false; clear(i); return true;
      case 15: if (!a.m || !valid(i)) return false; { const Mat& r = *ref[0]; a.m->setStructure(r.n, r.ci.data(), r.rp.data()); gen[i]++; a.lender = -1; a.mat = 0; a.owned = true; a.m->setAllZero();
          for (int q = 0; q < r.n; q++) for (int p = r.rp[q]; p < r.rp[q + 1]; p++) a.m->submitBlock(q * bs, r.ci[p] * bs, &r.v[(size_t)p * bs * bs], 1, 1); } return true;
    }
    return false;
  }
};
template <int bs> static void mworld(mc::Runner& R, const char* nm, int depth) {
  Mat r[2] = {make(pattern(2, 3), bs, true, 1), make(pattern(3, 0x1b), bs, true, 2)};
  typedef MWorld<bs> W;
  Vec xs[2], y[2][3];
  for (int k = 0; k < 2; k++) { xs[k] = vec(r[k].N(), k); for (int part = -1; part <= 1; part++) { Dense D = r[k].dense(); for (int i = 0; i < D.n; i++) for (int j = 0; j < D.n; j++) if ((part < 0 && j / bs > i / bs) || (part > 0 && j / bs < i / bs)) D(i,j) = 0; y[k][part + 1] = mul(D, xs[k]); } }
  for (int o1 = 0; o1 < W::NOPS; o1++) for (int o2 = 0; o2 < W::NOPS; o2++) {
    if (o1 / 3 != 0 && o1 / 3 != 1 && (o1 / 3 < 11 || o1 / 3 > 13)) continue;     // nothing else applies to empty slots
    if (!R.begin(mc::fmt("%s/ops=%d,%d,*", nm, o1, o2))) continue;
    mc::Cfg c; c.threads = 1; c.check_leaks = true;
    long* steps = new long(0);
    R.explore(c, [&]() {
      In i0(r[0]), i1(r[1]); double *x0 = dup(xs[0]), *x1 = dup(xs[1]);
      {
        W w; w.in[0] = &i0; w.in[1] = &i1; w.ref[0] = &r[0]; w.ref[1] = &r[1]; w.x[0] = x0; w.x[1] = x1; for (int k = 0; k < 2; k++) for (int q = 0; q < 3; q++) w.y[k][q] = y[k][q];
        bool go = w.op(o1) && (w.check(), w.op(o2));
        if (go) { w.check(); for (int d = 2; d < depth; d++) { int o = mc::choose(W::NOPS); if (!w.op(o)) break; mc::trans_add(1); w.check(); } }
        // slots are destroyed here in order
      }
      i0.unchanged(); i1.unchanged(); mc::clear_readonly(); free(x0); free(x1); i0.free_all(); i1.free_all();
    });
    delete steps;
  }
}
static void aworld(mc::Runner& R, int depth) {
  for (int o1 = 0; o1 < AWorld::NOPS; o1++) for (int o2 = 0; o2 < AWorld::NOPS; o2++) {
    if (o1 / 3 > 3 && o1 / 3 != 11) continue;
    if (!R.begin(mc::fmt("array/ops=%d,%d,*", o1, o2))) continue;
    mc::Cfg c; c.threads = 1; c.check_leaks = true;
    R.explore(c, [&]() {
      {
        AWorld w;
        // the aligned allocator may or may not be backed by several blocks
        { long b = mc::live_blocks(); double* p = aligned<double>(4); w.per = mc::live_blocks() - b; boost::alignment::aligned_free(p); }
        bool go = w.op(o1) && (w.check(), w.op(o2));
        if (go) { w.check(); for (int d = 2; d < depth; d++) { int o = mc::choose(AWorld::NOPS); if (!w.op(o)) break; mc::trans_add(1); w.check(); } }
        for (int k = 0; k < 2; k++) for (size_t q = 0; q < w.extv[k].size(); q++) if (w.ext[k][q] != w.extv[k][q]) mc::fail("a wrapped array was modified");
        uint64_t h = 1; for (auto& x : w.s) h = h * 31 + x.val.size() * 2 + x.owned; mc::observe(h);
        double* e0 = w.ext[0]; double* e1 = w.ext[1];
        for (int k = 0; k < 3; k++) w.destroy(k);
        w.check();
        free(e0); free(e1);
      }
    });
  }
}
int main(int argc, char** argv) {
  mc::Runner R(argc, argv, "C13");
  aworld(R, R.thorough() ? 6 : 5);
  mworld<1>(R, "csr", R.thorough() ? 5 : 4);
  mworld<3>(R, "bsr3", 4);
  return R.finish();
}
