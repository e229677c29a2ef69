#pragma once
#include <petscmock.h>
typedef struct { int *i, *j; int *diag; double *a; int nz, rmax, maxnz, nonzerorowcnt; int *imax, *ilen; } Mat_SeqAIJ;
typedef struct { Mat A, B; } Mat_MPIAIJ;
