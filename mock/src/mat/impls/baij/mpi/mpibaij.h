#pragma once
#include <petscmock.h>
typedef struct { int mbs, nbs, bs2; int *i, *j; int *diag; double *a; int nz, maxnz; int *imax, *ilen; } Mat_SeqBAIJ;
typedef struct { Mat A, B; } Mat_MPIBAIJ;
