// Implementation of the stand-in (see petscmock.h)
#include "mock.hpp"
#include <../src/mat/impls/aij/mpi/mpiaij.h>
#include <../src/mat/impls/baij/mpi/mpibaij.h>
#include <cstdarg>
#include <map>
namespace mock {
std::vector<std::pair<std::string, std::string>> options; const std::vector<std::pair<std::string, std::string>>* instead;
long calls, fail_at = -1, errors_raised; bool failed; const char* failed_call;
int ranks = 1; bool fail_options = true;
}
using namespace mock;
static const char* lookup(const char* n) { for (auto& o : instead ? *instead : options) if (o.first == n) return o.second.c_str(); return nullptr; }
// returns the error this call has to report
static int call(const char* name) { if (!fail_options && !strncmp(name, "PetscOptions", 12)) return 0; if (calls++ == fail_at) { failed = true; failed_call = name; return PETSC_ERR_MEM; } return 0; }
#define CALL do { if (int e_ = call(__func__)) return e_; } while (0)
extern "C" {
int mock_error(int code) { errors_raised++; return code; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = c == PETSC_COMM_SELF ? 1 : ranks; return 0; }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = 0; return 0; }
int MPI_Barrier(MPI_Comm) { return 0; }
// as in PETSc, a value is only stored when the option is there, and the flag may be absent
PetscErrorCode PetscOptionsHasName(PetscOptions, const char*, const char* n, PetscBool* s) { CALL; *s = lookup(n) ? PETSC_TRUE : PETSC_FALSE; return 0; }
static int isint(const char* v, char** e) { long x = strtol(v, e, 10); return (int)x; }
PetscErrorCode PetscOptionsGetInt(PetscOptions, const char*, const char* n, PetscInt* o, PetscBool* s) { CALL; const char* v = lookup(n); if (s) *s = v && *v ? PETSC_TRUE : PETSC_FALSE; if (v && *v) { char* e; int x = isint(v, &e); if (*e || e == v) return mock_error(PETSC_ERR_ARG_OUTOFRANGE); *o = x; } return 0; }
PetscErrorCode PetscOptionsGetReal(PetscOptions, const char*, const char* n, PetscReal* o, PetscBool* s) { CALL; const char* v = lookup(n); if (s) *s = v && *v ? PETSC_TRUE : PETSC_FALSE; if (v && *v) { char* e; double x = strtod(v, &e); if (*e || e == v) return mock_error(PETSC_ERR_ARG_OUTOFRANGE); *o = x; } return 0; }
PetscErrorCode PetscOptionsGetBool(PetscOptions, const char*, const char* n, PetscBool* o, PetscBool* s) {
  CALL; const char* v = lookup(n); if (s) *s = v ? PETSC_TRUE : PETSC_FALSE; if (!v) return 0;
  if (!*v || !strcmp(v, "true") || !strcmp(v, "1") || !strcmp(v, "yes")) *o = PETSC_TRUE; else if (!strcmp(v, "false") || !strcmp(v, "0") || !strcmp(v, "no")) *o = PETSC_FALSE; else return mock_error(PETSC_ERR_ARG_WRONG);
  return 0;
}
PetscErrorCode PetscOptionsGetString(PetscOptions, const char*, const char* n, char* o, size_t len, PetscBool* s) {
  CALL; const char* v = lookup(n); if (s) *s = v ? PETSC_TRUE : PETSC_FALSE; if (!v) return 0;
  if (len) { size_t k = strlen(v) < len - 1 ? strlen(v) : len - 1; memcpy(o, v, k); o[k] = 0; } return 0;
}
PetscErrorCode PetscOptionsGetIntArray(PetscOptions, const char*, const char* n, PetscInt* o, PetscInt* nmax, PetscBool* s) {
  CALL; const char* v = lookup(n); if (s) *s = v ? PETSC_TRUE : PETSC_FALSE; int k = 0; 
  if (v) while (*v && k < *nmax) { char* e; long x = strtol(v, &e, 10); if (e == v) return mock_error(PETSC_ERR_ARG_OUTOFRANGE); o[k++] = (int)x; v = *e == ',' ? e + 1 : e; if (*e && *e != ',') return mock_error(PETSC_ERR_ARG_OUTOFRANGE); }
  *nmax = k; return 0;
}
PetscErrorCode PetscErrorMessage(int e, const char** t, char** sp) { CALL; static char spec[] = "details"; *t = e > PETSC_ERR_MIN_VALUE && e < PETSC_ERR_MAX_VALUE ? "some error" : nullptr; if (sp) *sp = e % 2 ? spec : nullptr; return 0; }
PetscErrorCode PetscPrintf(MPI_Comm, const char*, ...) { return 0; }
// objects compared by type are preconditioners
PetscErrorCode PetscObjectTypeCompare(PetscObject o, const char* t, PetscBool* same) { CALL; *same = !strcmp(((PC)o)->type, t) ? PETSC_TRUE : PETSC_FALSE; return 0; }
PetscErrorCode PetscObjectTypeCompareAny(PetscObject o, PetscBool* same, const char* t, ...) { CALL; *same = PETSC_FALSE; va_list ap; va_start(ap, t); for (; t && *t; t = va_arg(ap, const char*)) if (!strcmp(((PC)o)->type, t)) *same = PETSC_TRUE; va_end(ap); return 0; }
PetscErrorCode PetscStrcmp(const char* a, const char* b, PetscBool* s) { *s = !strcmp(a, b) ? PETSC_TRUE : PETSC_FALSE; return 0; }
PetscErrorCode PCShellGetContext(PC p, void* c) { CALL; *(void**)c = p->ctx; return 0; }
PetscErrorCode PCShellSetContext(PC p, void* c) { CALL; p->ctx = c; return 0; }
PetscErrorCode PCShellSetName(PC p, const char* n) { CALL; snprintf(p->name, sizeof p->name, "%s", n); return 0; }
PetscErrorCode PCShellSetSetUp(PC p, PetscErrorCode (*f)(PC)) { CALL; p->setup = f; return 0; }
PetscErrorCode PCShellSetApply(PC p, PetscErrorCode (*f)(PC, Vec, Vec)) { CALL; p->apply = f; return 0; }
PetscErrorCode PCShellSetDestroy(PC p, PetscErrorCode (*f)(PC)) { CALL; p->destroy = f; return 0; }
PetscErrorCode PCShellSetApplyRichardson(PC p, PetscErrorCode (*f)(PC, Vec, Vec, Vec, PetscReal, PetscReal, PetscReal, PetscInt, PetscBool, PetscInt*, PCRichardsonConvergedReason*)) { CALL; p->richardson = f; return 0; }
PetscErrorCode PCGetOperators(PC p, Mat* a, Mat* b) { CALL; if (a) *a = p->Am ? p->Am : p->A; if (b) *b = p->A; return 0; }
PetscErrorCode PCGetType(PC p, PCType* t) { CALL; *t = p->type; return 0; }
PetscErrorCode PCSetUp(PC p) { CALL; p->setupcalled = 1; return p->setup ? p->setup(p) : 0; }
static int sub(PC p, const char* type, PetscInt* n, PetscInt* f, KSP** k) { if (strcmp(p->type, type)) return mock_error(PETSC_ERR_ARG_WRONG); if (!p->setupcalled) return mock_error(PETSC_ERR_ARG_WRONGSTATE); if (n) *n = p->nblocks; if (f) *f = 0; *k = p->sub; return 0; }
PetscErrorCode PCBJacobiGetSubKSP(PC p, PetscInt* n, PetscInt* f, KSP** k) { CALL; return sub(p, PCBJACOBI, n, f, k); }
PetscErrorCode PCASMGetSubKSP(PC p, PetscInt* n, PetscInt* f, KSP** k) { CALL; return sub(p, PCASM, n, f, k); }
static int mg(PC p) { return strcmp(p->type, PCMG) && strcmp(p->type, PCGAMG) ? mock_error(PETSC_ERR_ARG_WRONG) : p->setupcalled ? 0 : mock_error(PETSC_ERR_ARG_WRONGSTATE); }
PetscErrorCode PCMGGetLevels(PC p, PetscInt* n) { CALL; if (int e = mg(p)) return e; *n = p->nsub; return 0; }
PetscErrorCode PCMGGetSmoother(PC p, PetscInt l, KSP* k) { CALL; if (int e = mg(p)) return e; if (l < 0 || l >= p->nsub) return mock_error(PETSC_ERR_ARG_OUTOFRANGE); *k = p->sub[l]; return 0; }
PetscErrorCode PCMGGetSmootherUp(PC p, PetscInt l, KSP* k) { return PCMGGetSmoother(p, l, k); }
PetscErrorCode PCMGGetSmootherDown(PC p, PetscInt l, KSP* k) { return PCMGGetSmoother(p, l, k); }
PetscErrorCode PCMGGetCoarseSolve(PC p, KSP* k) { CALL; if (int e = mg(p)) return e; *k = p->sub[0]; return 0; }
PetscErrorCode PCKSPGetKSP(PC p, KSP* k) { CALL; if (strcmp(p->type, PCKSP)) return mock_error(PETSC_ERR_ARG_WRONG); *k = p->sub[0]; return 0; }
PetscErrorCode KSPGetPC(KSP k, PC* p) { CALL; *p = k->pc; return 0; }
PetscErrorCode KSPGetOperators(KSP k, Mat* a, Mat* b) { CALL; if (a) *a = k->Am ? k->Am : k->A; if (b) *b = k->A; return 0; }
PetscErrorCode KSPSetUp(KSP k) { CALL; k->setupcalled = 1; k->pc->setupcalled = 1; return k->pc->setup ? k->pc->setup(k->pc) : 0; }
PetscErrorCode MatGetOwnershipRange(Mat a, PetscInt* f, PetscInt* l) { CALL; if (f) *f = a->first; if (l) *l = a->first + a->rows; return 0; }
PetscErrorCode MatGetLocalSize(Mat a, PetscInt* m, PetscInt* n) { CALL; if (m) *m = a->rows; if (n) *n = a->rows; return 0; }
PetscErrorCode MatGetSize(Mat a, PetscInt* m, PetscInt* n) { CALL; if (m) *m = a->rows; if (n) *n = a->rows; return 0; }
PetscErrorCode MatGetBlockSize(Mat a, PetscInt* b) { CALL; *b = a->bs; return 0; }
PetscErrorCode MatGetType(Mat a, MatType* t) { CALL; *t = a->type; return 0; }
// diagonal locations are only known once this has been called
PetscErrorCode MatMissingDiagonal(Mat a, PetscBool* m, PetscInt* row) {
  CALL; *m = a->missing >= 0 ? PETSC_TRUE : PETSC_FALSE; if (row && a->missing >= 0) *row = a->missing;
  if (strstr(a->type, "baij")) ((Mat_SeqBAIJ*)a->data)->diag = a->diag_locations; else ((Mat_SeqAIJ*)a->data)->diag = a->diag_locations; return 0;
}
PetscErrorCode VecGetOwnershipRange(Vec v, PetscInt* f, PetscInt* l) { CALL; if (f) *f = v->first; if (l) *l = v->first + v->n; return 0; }
PetscErrorCode VecGetSize(Vec v, PetscInt* n) { CALL; *n = v->n; return 0; }
PetscErrorCode VecGetLocalSize(Vec v, PetscInt* n) { CALL; *n = v->n; return 0; }
PetscErrorCode VecGetArray(Vec v, PetscScalar** a) { CALL; v->writers++; *a = v->a; return 0; }
PetscErrorCode VecRestoreArray(Vec v, PetscScalar** a) { CALL; v->writers--; *a = nullptr; return 0; }
PetscErrorCode VecGetArrayWrite(Vec v, PetscScalar** a) { CALL; v->writers++; *a = v->a; return 0; }
PetscErrorCode VecRestoreArrayWrite(Vec v, PetscScalar** a) { CALL; v->writers--; *a = nullptr; return 0; }
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** a) { CALL; v->readers++; *a = v->a; return 0; }
PetscErrorCode VecRestoreArrayRead(Vec v, const PetscScalar** a) { CALL; v->readers--; *a = nullptr; return 0; }
PetscErrorCode VecSet(Vec v, PetscScalar s) { CALL; for (int i = 0; i < v->n; i++) v->a[i] = s; return 0; }
PetscErrorCode VecZeroEntries(Vec v) { return VecSet(v, 0); }
PetscErrorCode VecCopy(Vec x, Vec y) { CALL; for (int i = 0; i < x->n; i++) y->a[i] = x->a[i]; return 0; }
}
// assembled matrices and vectors
struct MockStore { int rows = -1, cols = -1; bool setup = false, roworiented = true, begun = false, assembled = false; std::map<std::pair<int,int>, double> v; };
extern "C" {
PetscErrorCode MatCreate(MPI_Comm, Mat* a) { CALL; *a = new _p_Mat(); (*a)->bs = 1; (*a)->type = ""; (*a)->store = new MockStore; return 0; }
PetscErrorCode MatSetFromOptions(Mat a) { CALL; if (const char* v = lookup("-mat_block_size")) a->bs = atoi(v); a->type = a->bs > 1 ? MATSEQBAIJ : MATSEQAIJ; return 0; }
PetscErrorCode MatSetBlockSize(Mat a, PetscInt bs) { CALL; if (a->store && a->store->setup && bs != a->bs) return mock_error(PETSC_ERR_ARG_WRONGSTATE); a->bs = bs; return 0; }
PetscErrorCode MatSetSizes(Mat a, PetscInt m, PetscInt n, PetscInt M, PetscInt N) { CALL; if (m == PETSC_DECIDE) m = M; if (n == PETSC_DECIDE) n = N; if (m < 0 || n < 0 || (M != PETSC_DECIDE && M != m) || (N != PETSC_DECIDE && N != n) || a->store->setup) return mock_error(PETSC_ERR_ARG_WRONG); a->store->rows = m; a->store->cols = n; a->rows = m; return 0; }
PetscErrorCode MatSetUp(Mat a) { CALL; auto s = a->store; if (s->rows < 0 || s->rows % a->bs || s->cols % a->bs) return mock_error(PETSC_ERR_ARG_SIZ); s->setup = true; return 0; }
PetscErrorCode MatSetOption(Mat a, MatOption o, PetscBool f) { CALL; if (o == MAT_ROW_ORIENTED) a->store->roworiented = f; return 0; }
static int put(MockStore* s, int i, int j, double x, InsertMode k) { if (i < 0 || j < 0) return 0; if (i >= s->rows || j >= s->cols) return mock_error(PETSC_ERR_ARG_OUTOFRANGE); if (k == INSERT_VALUES) s->v[{i, j}] = x; else s->v[{i, j}] += x; return 0; }
PetscErrorCode MatSetValues(Mat a, PetscInt m, const PetscInt* im, PetscInt n, const PetscInt* in, const PetscScalar* v, InsertMode k) {
  CALL; auto s = a->store; if (!s->setup) return mock_error(PETSC_ERR_ARG_WRONGSTATE); s->assembled = false;
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (int e = put(s, im[i], in[j], s->roworiented ? v[i * n + j] : v[j * m + i], k)) return e; return 0;
}
PetscErrorCode MatSetValuesBlocked(Mat a, PetscInt m, const PetscInt* im, PetscInt n, const PetscInt* in, const PetscScalar* v, InsertMode k) {
  CALL; auto s = a->store; if (!s->setup) return mock_error(PETSC_ERR_ARG_WRONGSTATE); s->assembled = false; int b = a->bs, M = m * b, N = n * b;
  for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) if (im[i / b] >= 0 && in[j / b] >= 0) if (int e = put(s, im[i / b] * b + i % b, in[j / b] * b + j % b, s->roworiented ? v[i * N + j] : v[j * M + i], k)) return e; return 0;
}
PetscErrorCode MatAssemblyBegin(Mat a, MatAssemblyType) { CALL; a->store->begun = true; return 0; }
PetscErrorCode MatAssemblyEnd(Mat a, MatAssemblyType t) { CALL; if (!a->store->begun) return mock_error(PETSC_ERR_ARG_WRONGSTATE); a->store->begun = false; a->store->assembled = t == MAT_FINAL_ASSEMBLY; return 0; }
PetscErrorCode MatDestroy(Mat* a) { CALL; if (*a) { delete (*a)->store; delete *a; } *a = nullptr; return 0; }
static int arrays(int m, int n, const int* i, const int* j, const double* v, Mat* a) {
  if (i[0]) return mock_error(PETSC_ERR_ARG_OUTOFRANGE);
  Mat b = new _p_Mat(); b->bs = 1; b->type = MATSEQAIJ; b->rows = m; auto s = b->store = new MockStore; s->rows = m; s->cols = n; s->setup = s->assembled = true; *a = b;
  for (int r = 0; r < m; r++) for (int k = i[r]; k < i[r + 1]; k++) if (int e = put(s, r, j[k], v[k], INSERT_VALUES)) return e; return 0;
}
PetscErrorCode MatCreateMPIAIJWithArrays(MPI_Comm, PetscInt m, PetscInt n, PetscInt M, PetscInt N, const PetscInt* i, const PetscInt* j, const PetscScalar* v, Mat* a) { CALL; if ((M != PETSC_DECIDE && M != m) || n < 0) return mock_error(PETSC_ERR_ARG_SIZ); return arrays(m, N == PETSC_DECIDE ? n : N, i, j, v, a); }
PetscErrorCode MatCreateSeqAIJWithArrays(MPI_Comm, PetscInt m, PetscInt n, PetscInt* i, PetscInt* j, PetscScalar* v, Mat* a) { CALL; return arrays(m, n, i, j, v, a); }
static Vec newvec(int n) { Vec v = new _p_Vec(); v->n = n; v->own = 1; return v; }
static void space(Vec v) { v->a = (double*)calloc(v->n ? v->n : 1, 8); v->ready = 1; }
PetscErrorCode MatCreateVecs(Mat a, Vec* r, Vec* l) { CALL; if (r) { *r = newvec(a->store->cols); space(*r); } if (l) { *l = newvec(a->store->rows); space(*l); } return 0; }
PetscErrorCode VecCreate(MPI_Comm, Vec* v) { CALL; *v = newvec(-1); return 0; }
PetscErrorCode VecSetSizes(Vec v, PetscInt n, PetscInt N) { CALL; if (n == PETSC_DECIDE) n = N; if (N != PETSC_DECIDE && N != n) return mock_error(PETSC_ERR_ARG_SIZ); v->n = n; return 0; }
PetscErrorCode VecSetFromOptions(Vec) { CALL; return 0; }
PetscErrorCode VecSetUp(Vec v) { CALL; if (v->n < 0) return mock_error(PETSC_ERR_ARG_WRONGSTATE); if (!v->ready) space(v); return 0; }
PetscErrorCode VecSetValues(Vec v, PetscInt n, const PetscInt* i, const PetscScalar* x, InsertMode k) { CALL; if (!v->ready) return mock_error(PETSC_ERR_ARG_WRONGSTATE); v->assembled = 0; for (int q = 0; q < n; q++) { if (i[q] < 0) continue; if (i[q] >= v->n) return mock_error(PETSC_ERR_ARG_OUTOFRANGE); if (k == INSERT_VALUES) v->a[i[q]] = x[q]; else v->a[i[q]] += x[q]; } return 0; }
PetscErrorCode VecAssemblyBegin(Vec v) { CALL; v->begun = 1; return 0; }
PetscErrorCode VecAssemblyEnd(Vec v) { CALL; if (!v->begun) return mock_error(PETSC_ERR_ARG_WRONGSTATE); v->begun = 0; v->assembled = 1; return 0; }
PetscErrorCode VecDestroy(Vec* v) { CALL; if (*v) { if ((*v)->own && (*v)->ready) free((*v)->a); delete *v; } *v = nullptr; return 0; }
}
namespace mock {
Mat mat(int bs, int nb, const char* type, int* rp, int* ci, double* v, int* di, bool block) {
  Mat a = new _p_Mat(); a->bs = bs; a->rows = block ? nb * bs : nb; a->type = type; a->first = 0; a->diag_locations = di; a->missing = -1;
  if (block) { auto* d = new Mat_SeqBAIJ(); d->i = rp; d->j = ci; d->a = v; d->mbs = d->nbs = nb; d->bs2 = bs * bs; d->nz = rp[nb]; d->diag = nullptr; a->data = d; }
  else { auto* d = new Mat_SeqAIJ(); d->i = rp; d->j = ci; d->a = v; d->nz = rp[nb]; d->diag = nullptr; a->data = d; }
  return a;
}
void free_mat(Mat a) { if (strstr(a->type, "baij")) delete (Mat_SeqBAIJ*)a->data; else delete (Mat_SeqAIJ*)a->data; delete a; }
KSP ksp(const char* pctype, Mat A) { KSP k = new _p_KSP(); k->A = A; k->pc = new _p_PC(); k->pc->type = pctype; k->pc->A = A; k->pc->nblocks = 1; return k; }
int destroy(KSP k) { int e = 0; for (int i = 0; i < k->pc->nsub; i++) if (int e2 = destroy(k->pc->sub[i])) e = e2; if (k->pc->destroy) if (int e2 = k->pc->destroy(k->pc)) e = e2; delete k->pc; delete k; return e; }
}
namespace mock { bool content(Mat a, int& rows, int& cols, std::map<std::pair<int,int>, double>& v) { if (!a || !a->store) return false; rows = a->store->rows; cols = a->store->cols; v = a->store->v; return a->store->assembled; } }
