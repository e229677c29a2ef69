/* Stand-in for the PETSc calls used by BLASTed's PETSc interface: sequential matrices and vectors over plain
 * arrays, shell preconditioners, nested solvers and an options database.  Every call goes through mock_call(),
 * which lets a check make any one of them fail. */
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cassert>
#include <cstdlib>
#define PETSC_VERSION_MAJOR 3
#define PETSC_VERSION_MINOR 13
#define PETSC_VERSION_SUBMINOR 0
#define PETSC_VERSION_LT(a,b,c) (3 < (a) || (3 == (a) && (13 < (b))))
#define PETSC_VERSION_GE(a,b,c) (!PETSC_VERSION_LT(a,b,c))
typedef int PetscErrorCode; typedef int PetscInt; typedef double PetscReal; typedef double PetscScalar; typedef int PetscMPIInt; typedef double MatScalar; typedef double PetscLogDouble;
typedef enum { PETSC_FALSE, PETSC_TRUE } PetscBool;
typedef int MPI_Comm;
#define PETSC_COMM_WORLD 1
#define PETSC_COMM_SELF 2
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_SUCCESS 0
#define PETSC_DECIDE (-1)
#define PETSC_NULL NULL
enum { PETSC_ERR_MIN_VALUE = 54, PETSC_ERR_MEM = 55, PETSC_ERR_SUP = 56, PETSC_ERR_ARG_SIZ = 60, PETSC_ERR_ARG_WRONG = 62, PETSC_ERR_ARG_OUTOFRANGE = 63, PETSC_ERR_ARG_WRONGSTATE = 73, PETSC_ERR_LIB = 76, PETSC_ERR_PLIB = 77, PETSC_ERR_USER = 83, PETSC_ERR_MAX_VALUE = 99 };
#define CHKERRQ(e) do { int ierr__ = (e); if (ierr__) return ierr__; } while (0)
#define CHKERRV(e) do { if (e) return; } while (0)
#define PetscCall(e) CHKERRQ(e)
#define PetscFunctionBegin
#define PetscFunctionReturn(x) return (x)
#define SETERRQ(comm, code, ...) return mock_error(code)
#define SETERRQ1(comm, code, ...) return mock_error(code)
#define SETERRQ2(comm, code, ...) return mock_error(code)
#define SETERRQ3(comm, code, ...) return mock_error(code)
extern "C" {
int mock_error(int code);
typedef const char* MatType; typedef const char* PCType; typedef const char* KSPType;
#define MATAIJ "aij"
#define MATSEQAIJ "seqaij"
#define MATMPIAIJ "mpiaij"
#define MATBAIJ "baij"
#define MATSEQBAIJ "seqbaij"
#define MATMPIBAIJ "mpibaij"
#define MATAIJMKL "aijmkl"
#define MATSEQAIJMKL "seqaijmkl"
#define MATMPIAIJMKL "mpiaijmkl"
#define MATBAIJMKL "baijmkl"
#define MATSEQBAIJMKL "seqbaijmkl"
#define MATMPIBAIJMKL "mpibaijmkl"
#define PCBJACOBI "bjacobi"
#define PCASM "asm"
#define PCGASM "gasm"
#define PCSHELL "shell"
#define PCMG "mg"
#define PCGAMG "gamg"
#define PCKSP "ksp"
#define PCJACOBI "jacobi"
#define PCLU "lu"
#define PCNONE "none"
typedef enum { PCRICHARDSON_CONVERGED_RTOL = 2, PCRICHARDSON_CONVERGED_ATOL = 3, PCRICHARDSON_CONVERGED_ITS = 4, PCRICHARDSON_DIVERGED_DTOL = -4 } PCRichardsonConvergedReason;
typedef struct _p_PetscObject* PetscObject; typedef struct _n_PetscOptions* PetscOptions;
struct _p_Mat { void* data; int bs, rows; const char* type; int first; int* diag_locations; int missing; struct MockStore* store; };
typedef struct _p_Mat* Mat;
struct _p_Vec { double* a; int n; int readers, writers, first; int own, ready, begun, assembled; };
typedef struct _p_Vec* Vec;
typedef struct _p_PC* PC; typedef struct _p_KSP* KSP;
struct _p_PC {
  const char* type; Mat A; int setupcalled; char name[64]; Mat Am;      /* A: matrix to build the preconditioner from; Am: matrix of the system, if another */
  void* ctx; PetscErrorCode (*setup)(PC); PetscErrorCode (*apply)(PC, Vec, Vec); PetscErrorCode (*destroy)(PC);
  PetscErrorCode (*richardson)(PC, Vec, Vec, Vec, PetscReal, PetscReal, PetscReal, PetscInt, PetscBool, PetscInt*, PCRichardsonConvergedReason*);
  KSP sub[8]; int nsub, nblocks;
};
struct _p_KSP { PC pc; Mat A; int setupcalled; Mat Am; };
int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_rank(MPI_Comm, int*); int MPI_Barrier(MPI_Comm);
PetscErrorCode PetscOptionsHasName(PetscOptions, const char*, const char*, PetscBool*);
PetscErrorCode PetscOptionsGetInt(PetscOptions, const char*, const char*, PetscInt*, PetscBool*);
PetscErrorCode PetscOptionsGetReal(PetscOptions, const char*, const char*, PetscReal*, PetscBool*);
PetscErrorCode PetscOptionsGetBool(PetscOptions, const char*, const char*, PetscBool*, PetscBool*);
PetscErrorCode PetscOptionsGetString(PetscOptions, const char*, const char*, char*, size_t, PetscBool*);
PetscErrorCode PetscOptionsGetIntArray(PetscOptions, const char*, const char*, PetscInt*, PetscInt*, PetscBool*);
PetscErrorCode PetscErrorMessage(int, const char**, char**);
PetscErrorCode PetscPrintf(MPI_Comm, const char*, ...);
PetscErrorCode PetscObjectTypeCompare(PetscObject, const char*, PetscBool*);
PetscErrorCode PetscObjectTypeCompareAny(PetscObject, PetscBool*, const char*, ...);
PetscErrorCode PetscStrcmp(const char*, const char*, PetscBool*);
PetscErrorCode PCShellGetContext(PC, void*); PetscErrorCode PCShellSetContext(PC, void*);
PetscErrorCode PCShellSetName(PC, const char*);
PetscErrorCode PCShellSetSetUp(PC, PetscErrorCode (*)(PC)); PetscErrorCode PCShellSetApply(PC, PetscErrorCode (*)(PC, Vec, Vec)); PetscErrorCode PCShellSetDestroy(PC, PetscErrorCode (*)(PC));
PetscErrorCode PCShellSetApplyRichardson(PC, PetscErrorCode (*)(PC, Vec, Vec, Vec, PetscReal, PetscReal, PetscReal, PetscInt, PetscBool, PetscInt*, PCRichardsonConvergedReason*));
PetscErrorCode PCGetOperators(PC, Mat*, Mat*); PetscErrorCode PCGetType(PC, PCType*); PetscErrorCode PCSetUp(PC);
PetscErrorCode PCBJacobiGetSubKSP(PC, PetscInt*, PetscInt*, KSP**); PetscErrorCode PCASMGetSubKSP(PC, PetscInt*, PetscInt*, KSP**);
PetscErrorCode PCMGGetLevels(PC, PetscInt*); PetscErrorCode PCMGGetSmoother(PC, PetscInt, KSP*); PetscErrorCode PCMGGetSmootherUp(PC, PetscInt, KSP*); PetscErrorCode PCMGGetSmootherDown(PC, PetscInt, KSP*); PetscErrorCode PCMGGetCoarseSolve(PC, KSP*); PetscErrorCode PCKSPGetKSP(PC, KSP*);
PetscErrorCode KSPGetPC(KSP, PC*); PetscErrorCode KSPGetOperators(KSP, Mat*, Mat*); PetscErrorCode KSPSetUp(KSP);
PetscErrorCode MatGetOwnershipRange(Mat, PetscInt*, PetscInt*); PetscErrorCode MatGetLocalSize(Mat, PetscInt*, PetscInt*); PetscErrorCode MatGetSize(Mat, PetscInt*, PetscInt*);
PetscErrorCode MatGetBlockSize(Mat, PetscInt*); PetscErrorCode MatGetType(Mat, MatType*); PetscErrorCode MatMissingDiagonal(Mat, PetscBool*, PetscInt*);
PetscErrorCode VecGetOwnershipRange(Vec, PetscInt*, PetscInt*); PetscErrorCode VecGetSize(Vec, PetscInt*); PetscErrorCode VecGetLocalSize(Vec, PetscInt*);
PetscErrorCode VecGetArray(Vec, PetscScalar**); PetscErrorCode VecRestoreArray(Vec, PetscScalar**); PetscErrorCode VecGetArrayRead(Vec, const PetscScalar**); PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar**); PetscErrorCode VecGetArrayWrite(Vec, PetscScalar**); PetscErrorCode VecRestoreArrayWrite(Vec, PetscScalar**);
PetscErrorCode VecSet(Vec, PetscScalar); PetscErrorCode VecZeroEntries(Vec); PetscErrorCode VecCopy(Vec, Vec);
// assembling matrices and vectors
typedef enum { INSERT_VALUES = 1, ADD_VALUES = 2 } InsertMode; typedef enum { MAT_FINAL_ASSEMBLY = 0, MAT_FLUSH_ASSEMBLY = 1 } MatAssemblyType; typedef enum { MAT_ROW_ORIENTED = 2, MAT_NEW_NONZERO_LOCATIONS = 3 } MatOption;
PetscErrorCode MatCreate(MPI_Comm, Mat*); PetscErrorCode MatSetFromOptions(Mat); PetscErrorCode MatSetBlockSize(Mat, PetscInt); PetscErrorCode MatSetSizes(Mat, PetscInt, PetscInt, PetscInt, PetscInt); PetscErrorCode MatSetUp(Mat);
PetscErrorCode MatSetOption(Mat, MatOption, PetscBool); PetscErrorCode MatSetValues(Mat, PetscInt, const PetscInt*, PetscInt, const PetscInt*, const PetscScalar*, InsertMode); PetscErrorCode MatSetValuesBlocked(Mat, PetscInt, const PetscInt*, PetscInt, const PetscInt*, const PetscScalar*, InsertMode);
PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType); PetscErrorCode MatAssemblyEnd(Mat, MatAssemblyType); PetscErrorCode MatDestroy(Mat*);
PetscErrorCode MatCreateMPIAIJWithArrays(MPI_Comm, PetscInt, PetscInt, PetscInt, PetscInt, const PetscInt*, const PetscInt*, const PetscScalar*, Mat*); PetscErrorCode MatCreateSeqAIJWithArrays(MPI_Comm, PetscInt, PetscInt, PetscInt*, PetscInt*, PetscScalar*, Mat*);
PetscErrorCode MatCreateVecs(Mat, Vec*, Vec*); PetscErrorCode VecCreate(MPI_Comm, Vec*); PetscErrorCode VecSetSizes(Vec, PetscInt, PetscInt); PetscErrorCode VecSetFromOptions(Vec); PetscErrorCode VecSetUp(Vec);
PetscErrorCode VecSetValues(Vec, PetscInt, const PetscInt*, const PetscScalar*, InsertMode); PetscErrorCode VecAssemblyBegin(Vec); PetscErrorCode VecAssemblyEnd(Vec); PetscErrorCode VecDestroy(Vec*);
}
