From b427c7df0db202f391b95df85b6a10428fcfb947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 01/39] fix: prefix_sum must not touch memory past the array
 and must combine all thread partitions

---
 src/utils/prefix_sum.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index e94dbc9..424df5b 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -32,10 +32,11 @@ void prefix_sum(IndexType *const counts, const int num_entries)
 #pragma omp parallel
     {
         const int thread_id = omp_get_thread_num();
-        const IndexType startidx = thread_id * def_num_witems;
+        const IndexType startidx =
+            std::min(num_entries, thread_id * def_num_witems);
         const IndexType endidx =
             std::min(num_entries, (thread_id + 1) * def_num_witems);
-        const IndexType startval = counts[startidx];
+        const IndexType startval = startidx < num_entries ? counts[startidx] : 0;
 
 #pragma omp barrier
 
@@ -45,14 +46,14 @@ void prefix_sum(IndexType *const counts, const int num_entries)
             counts[i] = partial_sum;
             partial_sum += nnz;
         }
-        if (thread_id != nthreads - 1) {
+        if (endidx < num_entries) {
             counts[endidx] = partial_sum;
         }
     }
 
     counts[0] = 0;
 
-    const auto levels = static_cast<int>(std::ceil(std::log(nthreads)));
+    const auto levels = static_cast<int>(std::ceil(std::log2(nthreads)));
     for (int ilvl = 0; ilvl < levels; ilvl++) {
         const IndexType factor = power(2, (ilvl + 1));
         const IndexType lvl_num_witems = factor * def_num_witems;
-- 
2.43.0


From 6247aa8ff8497e2cb44e7872eb79f8bb94f52960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 02/39] fix: matrix-vector products must honour the row-end
 pointers of triangular views

---
 src/blas/matvecs.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blas/matvecs.cpp b/src/blas/matvecs.cpp
index dac4fdb..4dc8bc2 100644
--- a/src/blas/matvecs.cpp
+++ b/src/blas/matvecs.cpp
@@ -38,7 +38,7 @@ void BLAS_BSR<mscalar,mindex,bs,stor>
 		y[irow] = Vector<scalar>::Zero(bs);
 
 		// loop over non-zero blocks of this block-row
-		for(index jj = mat.browptr[irow]; jj < mat.browptr[irow+1]; jj++)
+		for(index jj = mat.browptr[irow]; jj < mat.browendptr[irow]; jj++)
 		{
 			// multiply the blocks with corresponding sub-vectors
 			const index jcol = mat.bcolind[jj];
@@ -66,7 +66,7 @@ void BLAS_BSR<mscalar,mindex,bs,stor>
 		z[irow] = b * y[irow];
 
 		// loop over non-zero blocks of this block-row
-		for(index jj = mat.browptr[irow]; jj < mat.browptr[irow+1]; jj++)
+		for(index jj = mat.browptr[irow]; jj < mat.browendptr[irow]; jj++)
 		{
 			const index jcol = mat.bcolind[jj];
 			z[irow].noalias() += a * data[jj] * x[jcol];
@@ -83,7 +83,7 @@ void BLAS_CSR<mscalar,mindex>::matrix_apply(const SRMatrixStorage<mscalar,mindex
 	{
 		yy[irow] = 0;
 
-		for(index jj = mat.browptr[irow]; jj < mat.browptr[irow+1]; jj++)
+		for(index jj = mat.browptr[irow]; jj < mat.browendptr[irow]; jj++)
 		{
 			yy[irow] += mat.vals[jj] * xx[mat.bcolind[jj]];
 		}
@@ -100,7 +100,7 @@ void BLAS_CSR<mscalar,mindex>::gemv3(const SRMatrixStorage<mscalar,mindex>&& mat
 	{
 		zz[irow] = b * yy[irow];
 
-		for(index jj = mat.browptr[irow]; jj < mat.browptr[irow+1]; jj++)
+		for(index jj = mat.browptr[irow]; jj < mat.browendptr[irow]; jj++)
 		{
 			zz[irow] += a * mat.vals[jj] * xx[mat.bcolind[jj]];
 		}
-- 
2.43.0


From 5b41b73c591726e54c00104505148955094642ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 03/39] fix: wrapping CSR constructor read the non-zero count
 past the row pointers

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 61ae16e..ff9e346 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -494,7 +494,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 	: AbstractMatrix<scalar,index>(CSR)
 {
 	mat.nbrows = nrows;
-	mat.nnzb = brptrs[nrows+1];
+	mat.nnzb = brptrs[nrows];
 	mat.nbstored = mat.nnzb;
 	mat.browptr.wrap(brptrs, nrows+1);
 	mat.bcolind.wrap(bcinds, mat.nnzb);
-- 
2.43.0


From 251192503efaeaa2b90fbfd480c7da49066cd92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 04/39] fix: SGS initialisation of the scaled scalar ILU(0)
 indexed the scaling vector by non-zero position

---
 src/async_ilu_factor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index e7b218f..3ccdaff 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -118,8 +118,7 @@ static void fact_init_sgs(const CRawBSRMatrix<scalar,index> *const mat, const sc
 				iluvals[j] = scale[i]*mat->vals[j]*scale[mat->bcolind[j]];
 			for(index j = mat->browptr[i]; j < mat->diagind[i]; j++)
 				iluvals[j] *= 1.0/(mat->vals[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]);
+				                   * scale[mat->bcolind[j]] * scale[mat->bcolind[j]]);
 		}
 	else
 #pragma omp parallel for default (shared)
-- 
2.43.0


From 6276d7e82efee7d7a18f2f492a68ca2a6613f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 05/39] fix: zero initialisation of scalar ILU(0) fell through
 to the original-matrix initialisation

---
 src/async_ilu_factor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index 3ccdaff..c4edf1e 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -49,6 +49,7 @@ PrecInfo scalar_ilu0_factorize(const CRawBSRMatrix<scalar,index> *const mat,
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
 			iluvals[i] = 0;
+		break;
 	case INIT_F_ORIGINAL:
 		fact_init_original(mat, scale, iluvals);
 		break;
@@ -249,6 +250,7 @@ void scalar_ilu0_factorize_noscale(const CRawBSRMatrix<scalar,index> *const mat,
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
 			iluvals[i] = 0;
+		break;
 	case INIT_F_ORIGINAL:
 #pragma omp parallel for simd default(shared)
 		for(index i = 0; i < mat->browptr[mat->nbrows]; i++)
-- 
2.43.0


From 456caf3d4856c869e75e087dd676a5477696511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:14 +0000
Subject: [PATCH 06/39] fix: Gauss-Seidel preconditioner must start from zero,
 not from the output vector's previous contents

---
 src/relaxation_chaotic.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/relaxation_chaotic.cpp b/src/relaxation_chaotic.cpp
index 68de53e..c101aeb 100644
--- a/src/relaxation_chaotic.cpp
+++ b/src/relaxation_chaotic.cpp
@@ -29,6 +29,11 @@ void ChaoticBlockRelaxation<scalar,index,bs,stor>::apply(const scalar *const bb,
 	const Seg *x = reinterpret_cast<const Seg*>(xx);
 	Seg *xmut = reinterpret_cast<Seg*>(xx);
 
+	// as a preconditioner, start from zero and not from whatever the output vector contained
+#pragma omp parallel for simd default(shared)
+	for(index i = 0; i < mat.nbrows*bs; i++)
+		xx[i] = 0;
+
 #pragma omp parallel default(shared)
 	{
 		for(int step = 0; step < napplysweeps; step++)
@@ -92,6 +97,11 @@ template<typename scalar, typename index>
 void ChaoticRelaxation<scalar,index>::apply(const scalar *const bb,
 		scalar *const __restrict xx) const
 {
+	// as a preconditioner, start from zero and not from whatever the output vector contained
+#pragma omp parallel for simd default(shared)
+	for(index i = 0; i < mat.nbrows; i++)
+		xx[i] = 0;
+
 #pragma omp parallel default(shared)
 	for(int step = 0; step < napplysweeps; step++)
 	{
-- 
2.43.0


From aae20e395054e96ec2f51bc92f27f293fe04dbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 07/39] fix: level-scheduled scalar ILU(0) passed its threading
 flag as the diagnostics flag and dropped the latter

---
 src/solverops_levels_ilu0.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solverops_levels_ilu0.cpp b/src/solverops_levels_ilu0.cpp
index 1d43d6a..b4e5e3e 100644
--- a/src/solverops_levels_ilu0.cpp
+++ b/src/solverops_levels_ilu0.cpp
@@ -127,7 +127,8 @@ Async_Level_ILU0<scalar,index>
                    const FactInit fact_inittype, const bool threadedfactor,
                    const bool compute_remainder)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix), nbuildsweeps,1,use_scaling,thread_chunk_size,
-	                                           fact_inittype, INIT_A_NONE, threadedfactor, true)
+	                                           fact_inittype, INIT_A_NONE, compute_remainder,
+	                                           threadedfactor, true)
 { }
 
 template <typename scalar, typename index>
-- 
2.43.0


From fea939505500f62534db95ea1a18f3db81151d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 08/39] fix: structure constructor of the block matrix never
 set its dimensions

---
 src/blockmatrices.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index ff9e346..17fda0d 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -176,6 +176,9 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	constexpr int bs2 = bs*bs;
+	mat.nbrows = n_brows;
+	mat.nnzb = brptrs[n_brows];
+	mat.nbstored = mat.nnzb;
 	mat.browptr.resize(mat.nbrows+1);
 	mat.bcolind.resize(brptrs[mat.nbrows]);
 	mat.diagind.resize(mat.nbrows);
-- 
2.43.0


From 5d97a3eab3e1401abd5b0f7495a91e4ae8e03f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 09/39] fix: CSR updateBlock must index a rectangular block by
 its number of columns

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 17fda0d..2e77fbd 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -681,7 +681,7 @@ void BSRMatrix<scalar,index,1>::updateBlock(const index starti, const index star
 				std::cout << "!  BSRMatrix<1>: updateBlock: Invalid block!!\n";
 #endif
 #pragma omp atomic update
-			mat.vals[jj] += buffer[locrow*bsi+k];
+			mat.vals[jj] += buffer[locrow*bsj+k];
 			k++;
 		}
 	}
-- 
2.43.0


From ac394ff0a101667a78b65c3355146f80b8ac7205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 10/39] fix: constructing a matrix from a raw one must take
 over its arrays with their real lengths

---
 src/blockmatrices.ipp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 2e77fbd..e068159 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -216,7 +216,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	// Make sure to pass aligned memory!
-	mat.browptr.take_control(rmat.browptr, rmat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
 	mat.bcolind.take_control(rmat.bcolind, rmat.nbstored);
 	mat.vals.take_control(rmat.vals, rmat.nbstored*bs*bs);
 	mat.nbrows = rmat.nbrows;
@@ -508,19 +508,19 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 
 template <typename scalar, typename index>
 BSRMatrix<scalar,index,1>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
-	: AbstractMatrix<scalar,index>(CSR),
-	  mat(rmat.browptr, rmat.bcolind, rmat.vals, rmat.diagind,
-	      rmat.nbrows>0 ? &rmat.browptr[1]:nullptr, rmat.nbrows, rmat.nnzb, rmat.nbstored, 1)
+	: AbstractMatrix<scalar,index>(CSR)
 {
 	assert(rmat.nnzb == rmat.nbstored);
+	// Make sure to pass aligned memory!
 	mat.nbrows = rmat.nbrows;
 	mat.nnzb = rmat.nnzb;
 	mat.nbstored = rmat.nbstored;
-	mat.browptr.wrap(rmat.browptr, rmat.nbrows+1);
-	mat.bcolind.wrap(rmat.bcolind, mat.nbstored);
-	mat.vals.wrap(rmat.vals, mat.nbstored);
-	mat.diagind.wrap(rmat.diagind, mat.nbrows);
-	mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
+	mat.bcolind.take_control(rmat.bcolind, mat.nbstored);
+	mat.vals.take_control(rmat.vals, mat.nbstored);
+	mat.diagind.take_control(rmat.diagind, mat.nbrows);
+	if(rmat.nbrows > 0)
+		mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
 
 	rmat.nbrows=0;
 	rmat.browptr = rmat.bcolind = rmat.diagind = rmat.browendptr = nullptr; rmat.vals = nullptr;
-- 
2.43.0


From add0ac42549e3d4a0efbec24c292b3942ac76961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 11/39] fix: block matrix storage accessor reinterpreted the
 storage object as an unrelated struct

---
 include/blockmatrices.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockmatrices.hpp b/include/blockmatrices.hpp
index a201c5a..7b33116 100644
--- a/include/blockmatrices.hpp
+++ b/include/blockmatrices.hpp
@@ -208,8 +208,8 @@ public:
 	virtual ~BSRMatrix();
 
 	/// Allows immutable access to the underlying matrix storage
-	const CRawBSRMatrix<scalar,index> *getRawSRMatrix() const {
-		return reinterpret_cast<const CRawBSRMatrix<scalar,index>*>(&mat);
+	const SRMatrixStorage<scalar,index>& getRawSRMatrix() const {
+		return mat;
 	}
 
 	/// Set the storage structure of the matrix
-- 
2.43.0


From a21145e85f9701913577a0c8140140b72fc83748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 12/39] fix: default raw matrix left its stored-block count
 uninitialised

---
 include/srmatrixdefs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/srmatrixdefs.hpp b/include/srmatrixdefs.hpp
index c8d60f2..0037a12 100644
--- a/include/srmatrixdefs.hpp
+++ b/include/srmatrixdefs.hpp
@@ -146,7 +146,7 @@ struct RawBSRMatrix
 	/// Default constructor
 	RawBSRMatrix()
 		: browptr{nullptr}, bcolind{nullptr}, vals{nullptr}, diagind{nullptr}, browendptr{nullptr},
-		  nbrows{0}, nnzb{0}
+		  nbrows{0}, nnzb{0}, nbstored{0}
 	{ }
 
 	/// Set data pointers
-- 
2.43.0


From c1a476197e6c7f44c75b8a26733e027b32973a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 13/39] fix: Matrix Market keywords 'pattern' and
 'skew-symmetric' were misspelt, so such headers aborted the program

---
 src/coomatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 4f6916b..bcf0c43 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -61,7 +61,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.scalartype = COMPLEX;
 	else if(typeofmatrix[3] == "integer")
 		descr.scalartype = INTEGER;
-	else if(typeofmatrix[3] == "patter")
+	else if(typeofmatrix[3] == "pattern")
 		descr.scalartype = PATTERN;
 	else {
 		std::cout << "! Invalid scalar type!\n";
@@ -72,7 +72,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.matrixtype = GENERAL;
 	else if(typeofmatrix[4] == "symmetric")
 		descr.matrixtype = SYMMETRIC;
-	else if(typeofmatrix[4] == "skewsymmetric")
+	else if(typeofmatrix[4] == "skew-symmetric")
 		descr.matrixtype = SKEWSYMMETRIC;
 	else if(typeofmatrix[4] == "hermitian")
 		descr.matrixtype = HERMITIAN;
-- 
2.43.0


From b658fdc5aa93383c269e7c0e75628983e2327053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 14/39] fix: complex Matrix Market files were read as if they
 were real

---
 src/coomatrix.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index bcf0c43..9887fbb 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -148,6 +148,10 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 		fin.close();
 		throw "Matrix should be stored as dense!";
 	}
+	if(descr.scalartype == COMPLEX || descr.scalartype == PATTERN) {
+		fin.close();
+		throw MatrixReadException("! readDenseMatrixMarket: Matrix should be real!");
+	}
 
 	const std::vector<int> sizes = getSizeFromMatrixMarket<int>(fin,descr);
 	if(sizes.size() < 2) {
@@ -202,6 +206,9 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	if(descr.scalartype == PATTERN) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read pattern matrices.");
 	}
+	if(descr.scalartype == COMPLEX) {
+		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read complex matrices.");
+	}
 	if(descr.matrixtype != GENERAL) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Can only read general matrices.");
 	}
-- 
2.43.0


From a4a9644db55aa9e4c2fc78fbfa3eca13ce606aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 15/39] fix: report unreadable Matrix Market files with
 MatrixReadException instead of aborting the program

---
 src/coomatrix.cpp | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 9887fbb..cb6f304 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -51,8 +51,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.storagetype = ARRAY;
 	}
 	else {
-		std::cout << "! Invalid storage type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid storage type!");
 	}
 
 	if(typeofmatrix[3] == "real")
@@ -64,8 +63,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 	else if(typeofmatrix[3] == "pattern")
 		descr.scalartype = PATTERN;
 	else {
-		std::cout << "! Invalid scalar type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid scalar type!");
 	}
 
 	if(typeofmatrix[4] == "general")
@@ -77,8 +75,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 	else if(typeofmatrix[4] == "hermitian")
 		descr.matrixtype = HERMITIAN;
 	else {
-		std::cout << "! Invalid matrix type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid matrix type!");
 	}
 
 	return descr;
@@ -100,14 +97,12 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 
 	if(descr.storagetype == COORDINATE) {
 		if(sizestr.size() < 3) {
-			std::cout << "! getSizeFromMatrixMarket: Not enough size information!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Not enough size information!");
 		}
 	}
 	else {
 		if(sizestr.size() < 2) {
-			std::cout << "! getSizeFromMatrixMarket: Not enough size information!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Not enough size information!");
 		}
 	}
 
@@ -118,12 +113,10 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 			sizes[i] = std::stoi(sizestr[i]);
 		}
 		catch(const std::invalid_argument& e) {
-			std::cout << "! getSizeFromMatrixMarket: Invalid size!!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Invalid size!!");
 		}
 		catch(const std::out_of_range& e) {
-			std::cout << "! getSizeFromMatrixMarket: Size is too large for the type of index!!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Size is too large for the type of index!!");
 		}
 	}
 
@@ -135,18 +128,17 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 {
 	std::ifstream fin(file);
 	if(!fin) {
-		std::cout << " readDenseMatrixMarket: File could not be opened to read!\n";
-		std::abort();
+		throw MatrixReadException("! readDenseMatrixMarket: File could not be opened to read!");
 	}
 
 	const MMDescription descr = getMMDescription(fin);
 	if(descr.matrixtype != GENERAL) {
 		fin.close();
-		throw "Matrix should be general!";
+		throw MatrixReadException("Matrix should be general!");
 	}
 	if(descr.storagetype != ARRAY) {
 		fin.close();
-		throw "Matrix should be stored as dense!";
+		throw MatrixReadException("Matrix should be stored as dense!");
 	}
 	if(descr.scalartype == COMPLEX || descr.scalartype == PATTERN) {
 		fin.close();
@@ -156,7 +148,7 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 	const std::vector<int> sizes = getSizeFromMatrixMarket<int>(fin,descr);
 	if(sizes.size() < 2) {
 		fin.close();
-		throw "Size vector has less than 2 entries!";
+		throw MatrixReadException("Size vector has less than 2 entries!");
 	}
 
 	device_vector<scalar> vals(sizes[0]*sizes[1]);
@@ -195,8 +187,7 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	std::cout << " Attempting to read file " << file << std::endl;
 	std::ifstream fin(file);
 	if(!fin) {
-		std::cout << " COOMatrix: File could not be opened to read!\n";
-		std::abort();
+		throw MatrixReadException("! COOMatrix: File could not be opened to read!");
 	}
 
 	const MMDescription descr = getMMDescription(fin);
-- 
2.43.0


From a2a4f5cef9828c5d1a31baa6ba4d0feb406bf484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 16/39] fix: truncated or corrupt Matrix Market entries were
 silently read as a wrong matrix

---
 src/coomatrix.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index cb6f304..a8fe323 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -118,6 +118,8 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 		catch(const std::out_of_range& e) {
 			throw MatrixReadException("! getSizeFromMatrixMarket: Size is too large for the type of index!!");
 		}
+		if(sizes[i] < 0)
+			throw MatrixReadException("! getSizeFromMatrixMarket: Negative size!!");
 	}
 
 	return sizes;
@@ -154,6 +156,8 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 	device_vector<scalar> vals(sizes[0]*sizes[1]);
 	for(int i = 0; i < sizes[0]*sizes[1]; i++)
 		fin >> vals[i];
+	if(!fin)
+		throw MatrixReadException("! readDenseMatrixMarket: Missing or invalid values!");
 
 	fin.close();
 	return vals;
@@ -215,6 +219,10 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	for(index i = 0; i < nnz; i++) {
 		index ri, ci;
 		fin >> ri >> ci >> entries[i].value;
+		if(!fin)
+			throw MatrixReadException("! COOMatrix: readMatrixMarket: Missing or invalid entries!");
+		if(ri < 1 || ri > nrows || ci < 1 || ci > ncols)
+			throw MatrixReadException("! COOMatrix: readMatrixMarket: Entry outside the matrix!");
  		entries[i].rowind = ri-1;
 		entries[i].colind = ci-1;
 	}
-- 
2.43.0


From bd91582e41247bb6c490d7cf700e47bf55de4fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 17/39] fix: row pointers of a Matrix Market matrix with rows
 without entries

---
 src/coomatrix.cpp | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index a8fe323..e9615a5 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -233,33 +233,17 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	std::sort(entries.begin(), entries.end(), 
 			[](Entry<scalar,index> a, Entry<scalar,index> b) { return a.rowind < b.rowind; } );
 
-	// get row pointers- note that we assume there's at least one element in each row
-	rowptr.resize(nrows+1);
-	std::vector <typename std::vector<Entry<scalar,index>>::iterator> rowits(nrows+1);
-	rowptr[0] = 0;
-	rowits[0] = entries.begin();
-	
-	index k = 1;                 //< Keeps track of current entry
-	index nextrow = 1;           //< Keeps track of the number of rows detected
-	for(auto it = entries.begin()+1; it != entries.end(); ++it)
-	{
-		if( (*it).rowind != (*(it-1)).rowind ) {
-			rowits[nextrow] = it;
-			rowptr[nextrow] = k;
-			nextrow++;
-		}
-
-		k++;
-	}
-	
-	assert(nextrow == nrows);       //< The previous row should have been the last, ie. nrows-1
-	rowits[nrows] = entries.end();
-	rowptr[nrows] = nnz;
+	// get row pointers
+	rowptr.assign(nrows+1, 0);
+	for(auto it = entries.begin(); it != entries.end(); ++it)
+		rowptr[it->rowind+1]++;
+	for(index i = 0; i < nrows; i++)
+		rowptr[i+1] += rowptr[i];
 
 	// Sort each row by columns
 	for(index i = 0; i < nrows; i++)
 	{
-		std::sort(rowits[i],rowits[i+1], 
+		std::sort(entries.begin()+rowptr[i], entries.begin()+rowptr[i+1],
 				[](Entry<scalar,index> a, Entry<scalar,index> b) { return a.colind < b.colind; } );
 	}
 }
-- 
2.43.0


From 36ceccf468c7deed63ed9dae2bf58b2a5c87ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 18/39] fix: blank lines before the size line of a Matrix
 Market file are allowed

---
 src/coomatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index e9615a5..0151dc3 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -85,9 +85,9 @@ MMDescription getMMDescription(std::ifstream& fin)
 template <typename index>
 std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescription& descr)
 {
-	// read and discard lines until the first line that does not begin with '%'
+	// read and discard lines until the first line that is not blank and does not begin with '%'
 	std::string line = "%";
-	while(line[0] == '%')
+	while(fin && (line[0] == '%' || line.find_first_not_of(" \t\r") == std::string::npos))
 		std::getline(fin, line);
 
 	// parse matrix size line
-- 
2.43.0


From 596f8774ccee37133ec3304c8e9492dbbc0ba1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 19/39] fix: conversion to block rows lost the first blocks
 when leading block-rows are empty

---
 src/coomatrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 0151dc3..620e6fc 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -347,7 +347,7 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 
 	// fix browptr for empty block rows
 	for(index i = bmat.nbrows-1; i > 0; i--)
-		if(bmat.browptr[i] == 0)
+		if(!tallybrows[i])
 			bmat.browptr[i] = bmat.browptr[i+1];
 
 	bmat.bcolind.resize(bnnz);
-- 
2.43.0


From 6f6a601a6687b79864f8fd4f6719c3a9d46603df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 20/39] fix: block-columns must be sorted in every block-row
 after conversion to block rows

---
 src/coomatrix.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 620e6fc..6806243 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -312,10 +312,6 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 	bcolidxs.reserve(nnz/bs);
 	std::vector<bool> tallybrows(bmat.nbrows, false);
 
-	/** If nonzeros in each row were sorted by column initially, 
-	 * blocks in each block-row would end up sorted by block-column.
-	 */
-
 	for(index irow = 0; irow < nrows; irow++)
 	{
 		const index curbrow = irow/bs;
@@ -335,8 +331,6 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 			// if it does not exist, add the current block col index
 			if(it == bcolidxs.end()) {
 				bcolidxs.push_back(curbcol);
-				if(curbcol == curbrow)
-					bmat.diagind[curbrow] = bnnz;
 				bnnz++;
 			}
 		}
@@ -350,6 +344,15 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 		if(!tallybrows[i])
 			bmat.browptr[i] = bmat.browptr[i+1];
 
+	// blocks were found in the order of the rows within their block-row; sort them by block-column
+	for(index i = 0; i < bmat.nbrows; i++)
+	{
+		std::sort(bcolidxs.begin()+bmat.browptr[i], bcolidxs.begin()+bmat.browptr[i+1]);
+		for(index j = bmat.browptr[i]; j < bmat.browptr[i+1]; j++)
+			if(bcolidxs[j] == i)
+				bmat.diagind[i] = j;
+	}
+
 	bmat.bcolind.resize(bnnz);
 	bmat.vals.resize(bnnz*bs*bs);
 
-- 
2.43.0


From 8fca3a1db2211a53ca8be8a7fc0d078f952773cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 21/39] fix: diagonal locations must follow a reordering of the
 matrix

---
 src/reorderingscaling.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reorderingscaling.cpp b/src/reorderingscaling.cpp
index 6bd8d90..d08056e 100644
--- a/src/reorderingscaling.cpp
+++ b/src/reorderingscaling.cpp
@@ -195,6 +195,15 @@ void Reordering<scalar,index,bs>::applyOrdering(RawBSRMatrix<scalar,index>& mat,
 			}
 		}
 	}
+
+	// diagonal entries of the reordered matrix are at new locations
+	if(mat.diagind && (rp.size() > 0 || cp.size() > 0))
+		for(index i = 0; i < mat.nbrows; i++)
+		{
+			mat.diagind[i] = -1;             // if there's no diagonal entry, we leave this as -1
+			internal::inner_search<index>(mat.bcolind, mat.browptr[i], mat.browptr[i+1], i,
+			                              &mat.diagind[i]);
+		}
 }
 
 /** This is most likely not the best way to do it. The vector is first copied into a local
-- 
2.43.0


From 2b3e5136527b99dcd4c24c5629f852fd437bee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 22/39] fix: reordered ILU(0) must undo the column ordering of
 the solution

---
 src/solverops_ilu0.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 432de49..49ca062 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -462,8 +462,8 @@ void ReorderedAsyncILU0_SRPreconditioner<scalar,index>::apply(const scalar *cons
 		                  applyinittype, ra, za);
 	}
 
-	// reorder solution
-	reord->applyOrdering(za, FORWARD, COLUMN);
+	// bring the solution back to the original ordering
+	reord->applyOrdering(za, INVERSE, COLUMN);
 }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 7ed625ba31021af01fc4acd4aadb95260315ff83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 23/39] fix: reordered ILU(0) passed its threading flags at the
 wrong positions

---
 src/solverops_ilu0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 49ca062..27f740c 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -403,7 +403,7 @@ ReorderedAsyncILU0_SRPreconditioner<scalar,index>
                                       const FactInit finit, const ApplyInit ainit,
                                       const bool threadedfactor, const bool threadedapply)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix),nbuildsweeps,napplysweeps,true, tcs,
-	                                           finit, ainit, threadedfactor,threadedapply),
+	                                           finit, ainit, false, threadedfactor,threadedapply),
 	  reord{reorderscale}
 { }
 
-- 
2.43.0


From 88352dd0f93a9a1c7b72ccc66238bc49b5ea102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 24/39] fix: declaration of compute_SAI did not match its
 definition, so it could not be linked

---
 src/sai.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sai.hpp b/src/sai.hpp
index 372bcd0..20467a3 100644
--- a/src/sai.hpp
+++ b/src/sai.hpp
@@ -61,8 +61,9 @@ LeftSAIPattern<index> left_incomplete_SAI_pattern(const SRMatrixStorage<const sc
  * \param[out] sai The approximate inverse matrix preallocated to the same size as the original matrix
  */
 template <typename scalar, typename index, int bs, StorageOptions stor>
-void compute_SAI(const CRawBSRMatrix<scalar,index>& mat, const LeftSAIPattern<index>& sp,
-                 const int thread_chunk_size, const bool fullsai, RawBSRMatrix<scalar,index>& sai);
+void compute_SAI(const SRMatrixStorage<const scalar,const index>& mat, const LeftSAIPattern<index>& sp,
+                 const int thread_chunk_size, const bool fullsai,
+                 SRMatrixStorage<scalar,index>& sai);
 
 }
 
-- 
2.43.0


From 5b67196f0fc9c875e51ccaa88509339c217892c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 25/39] fix: columns of the SAI least-squares matrices are
 sparse, so may be shorter than the number of equations

---
 src/sai.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sai.cpp b/src/sai.cpp
index e427b7e..d48ffef 100644
--- a/src/sai.cpp
+++ b/src/sai.cpp
@@ -349,7 +349,7 @@ LMatrix<scalar> gather_lhs_matrix(const SRMatrixStorage<const scalar,const index
 		const index start = sp.bcolptr[sp.sairowptr[row]+jcol],
 			end = sp.bcolptr[sp.sairowptr[row]+jcol+1];
 
-		assert(end-start == sp.nEqns[row]);
+		assert(end-start <= sp.nEqns[row]);
 
 #pragma omp simd
 		for(index ii = start; ii < end; ii++)
-- 
2.43.0


From fb78918b1cfa3acc483954094a3659a8a0053a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 26/39] fix: nested solvers of a PETSc stack use the given
 factory, and the default factory is made once

setup_blasted_stack_ext recursed through setup_blasted_stack, which replaced the
factory of the list by a new default one for every nested solver: the given factory
was ignored for all but a top-level shell, and the replaced ones were leaked. The
function declared in blasted_petsc_ext.hpp was not defined at all.
---
 src/blasted_petsc.cpp | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index bf7df99..1169eff 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -575,8 +575,9 @@ PetscErrorCode relax_local_blasted(PC pc, Vec rhs, Vec x, Vec w,
 	return ierr;
 }
 
-int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
-                            Blasted_data_list *const bctv)
+/// Sets up all shell preconditioners in the tree of the given solver with operators from a given factory
+static PetscErrorCode setup_blasted_stack_with(KSP ksp, const FactoryBase<double,int> *const fctry,
+                                               Blasted_data_list *const bctv)
 {
 	PetscErrorCode ierr = 0;
 	PC pc;
@@ -605,7 +606,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 			SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ARG_WRONGSTATE,
 					"Only one subdomain per rank is supported.");
 
-		ierr = setup_blasted_stack(subksp[0], bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_with(subksp[0], fctry, bctv); CHKERRQ(ierr);
 	}
 	else if(ismg || isgamg) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
@@ -616,7 +617,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		for(int ilvl = 1; ilvl < nlevels; ilvl++) {
 			KSP smootherctx;
 			ierr = PCMGGetSmoother(pc, ilvl , &smootherctx); CHKERRQ(ierr);
-			ierr = setup_blasted_stack(smootherctx, bctv); CHKERRQ(ierr);
+			ierr = setup_blasted_stack_with(smootherctx, fctry, bctv); CHKERRQ(ierr);
 			/*
 			KSP smootherup, smootherdown;
 			ierr = PCMGGetSmootherDown(pc, ilvl , &smootherdown); CHKERRQ(ierr);
@@ -626,14 +627,14 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		}
 		KSP coarsesolver;
 		ierr = PCMGGetCoarseSolve(pc, &coarsesolver); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(coarsesolver, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_with(coarsesolver, fctry, bctv); CHKERRQ(ierr);
 	}
 	else if(isksp) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
 		ierr = PCSetUp(pc); CHKERRQ(ierr);
 		KSP subksp;
 		ierr = PCKSPGetKSP(pc, &subksp); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(subksp, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_with(subksp, fctry, bctv); CHKERRQ(ierr);
 	}
 	else if(isshell) {
 		// if the PC is shell, this is the relevant KSP to pass to BLASTed for setup
@@ -644,7 +645,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		// so we setup the BLASTed preconditioner using the context at the head of the list
 
 		// set the factory to use - same for each solver context in the tree
-		bctv->ctxlist->bfactory = bctv->bfactory;
+		bctv->ctxlist->bfactory = (void*)fctry;
 
 		ierr = setup_localpreconditioner_blasted(ksp, bctv->ctxlist); CHKERRQ(ierr);
 	}
@@ -654,10 +655,12 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 
 PetscErrorCode setup_blasted_stack(KSP ksp, Blasted_data_list *const bctx)
 {
-	FactoryBase<double,int> *factory = new SRFactory<double,int>();
-	bctx->bfactory = (void*)factory;
-	bctx->_defaultfactory = 1;
-	return setup_blasted_stack_ext(ksp, factory, bctx);
+	if(bctx->_defaultfactory != 1) {
+		FactoryBase<double,int> *factory = new SRFactory<double,int>();
+		bctx->bfactory = (void*)factory;
+		bctx->_defaultfactory = 1;
+	}
+	return setup_blasted_stack_with(ksp, (const FactoryBase<double,int>*)bctx->bfactory, bctx);
 }
 
 PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bctx)
@@ -735,3 +738,13 @@ void computeTotalTimes(Blasted_data_list *const bctv)
 }
 
 }
+
+namespace blasted {
+
+int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int>& factory,
+                            Blasted_data_list *const bctx)
+{
+	return setup_blasted_stack_with(ksp, &factory, bctx);
+}
+
+}
-- 
2.43.0


From 96a82c03c475451355cfca1cd9c1ef0001cbcac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:32 +0000
Subject: [PATCH 27/39] fix: sequential sweeps requested for sequential ILU(0)
 through PETSc ran no sweep at all

---
 src/blasted_petsc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 1169eff..23f943a 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -92,8 +92,14 @@ static void setSweeps_checkSeq(const Blasted_data *const ctx, AsyncSolverSetting
 	settings.nbuildsweeps = ctx->nbuildsweeps;
 	settings.napplysweeps = ctx->napplysweeps;
 
-	if(settings.prectype == BLASTED_SEQILU0)
+	if(settings.prectype == BLASTED_SEQILU0) {
+		// both parts are sequential already
+		if(ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
+			settings.nbuildsweeps = 1;
+		if(ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL)
+			settings.napplysweeps = 1;
 		return;
+	}
 
 	// Cases where both build and apply are sequential
 	if((ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL && ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
-- 
2.43.0


From 6fb5fcbf978abe1529b4c77d39e0bff565a2fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 28/39] fix: sequential sweeps requested through PETSc for an
 operator other than ILU(0) are refused

With both sweep counts sequential, any operator was silently replaced by sequential
ILU(0); with only one of them sequential the request was refused already.
---
 src/blasted_petsc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 23f943a..f70080d 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -106,6 +106,10 @@ static void setSweeps_checkSeq(const Blasted_data *const ctx, AsyncSolverSetting
 	   || (ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL && settings.prectype == BLASTED_SFILU0)
 	   || (ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL && settings.prectype == BLASTED_SAPILU0))
 	{
+		if(settings.prectype != BLASTED_ILU0 && settings.prectype != BLASTED_SFILU0
+		   && settings.prectype != BLASTED_SAPILU0 && settings.prectype != BLASTED_ASYNC_LEVEL_ILU0)
+			throw std::runtime_error(" Seq. build and appl. only supported with async ILU factorization!");
+
 		const int nthreads = omp_get_max_threads();
 		if(nthreads != 1) {
 			std::cout << "WARNING: Both sequential build and apply are requested, but " << nthreads
-- 
2.43.0


From e008fc4cc5ab86c5fefbb108008b69c2942f876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 29/39] fix: relaxation is offered to PETSc only by operators
 that have it

The type of the preconditioner was looked at before it had been read from the options
(uninitialised), so relaxation was offered, for instance, for ILU(0), where it throws.
---
 src/blasted_petsc.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index f70080d..83ff5a7 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -310,6 +310,10 @@ PetscErrorCode createNewPreconditioner(PC pc)
 
 	ctx->bprec = reinterpret_cast<void*>(precop);
 
+	// set a relaxation application only for preconditioners that support it
+	ierr = PCShellSetApplyRichardson(pc, precop->relaxationAvailable() ? &relax_local_blasted : NULL);
+	CHKERRQ(ierr);
+
 	ctx->infolist = NULL;
 	if(ctx->compute_precinfo) {
 		PrecInfoList *bpinfo = new PrecInfoList;
@@ -721,15 +725,6 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	ierr = PCShellSetApply(subpc, &apply_local_blasted);            CHKERRQ(ierr);
 	ierr = PCShellSetDestroy(subpc, &cleanup_blasted);              CHKERRQ(ierr);
 
-	// set a relaxation application only for supported preconditioners
-	if(bctx->prectype != BLASTED_ILU0 &&
-	   bctx->prectype != BLASTED_CSC_BGS &&
-	   bctx->prectype != BLASTED_NO_PREC)
-	{
-		ierr = PCShellSetApplyRichardson(subpc, &relax_local_blasted);
-		CHKERRQ(ierr);
-	}
-
 	return ierr;
 }
 
-- 
2.43.0


From cd4099ed7a74142c194df39093255a5e6193e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 30/39] fix: setting up a PETSc solver again does not leak the
 previous operator and diagnostics

---
 src/blasted_petsc.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 83ff5a7..84acae6 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -202,7 +202,6 @@ static PetscErrorCode setupDataFromOptions(PC pc)
 	printf(" ptype = %d and sweeps = %d,%d.\n", ptype, sweeps[0], sweeps[1]);
 #endif
 
-	ctx->bprec = nullptr;
 	ctx->prectype = ptype;
 	ctx->nbuildsweeps = sweeps[0];
 	ctx->napplysweeps = sweeps[1];
@@ -235,6 +234,10 @@ PetscErrorCode createNewPreconditioner(PC pc)
 	// delete old matrix
 	BlastedPreconditioner* precop = reinterpret_cast<BlastedPreconditioner*>(ctx->bprec);
 	delete precop;
+	ctx->bprec = nullptr;
+	// ..and the old diagnostics
+	delete static_cast<PrecInfoList*>(ctx->infolist);
+	ctx->infolist = NULL;
 
 	/* get the local preconditioning matrix
 	 * we operate on the diagonal matrix block corresponding to this process
@@ -314,7 +317,6 @@ PetscErrorCode createNewPreconditioner(PC pc)
 	ierr = PCShellSetApplyRichardson(pc, precop->relaxationAvailable() ? &relax_local_blasted : NULL);
 	CHKERRQ(ierr);
 
-	ctx->infolist = NULL;
 	if(ctx->compute_precinfo) {
 		PrecInfoList *bpinfo = new PrecInfoList;
 		bpinfo->infolist.reserve(250);  // some reasonable number of linear solves expected
@@ -369,6 +371,9 @@ void destroyBlastedDataList(Blasted_data_list *const b)
 		delete list;
 		list = nullptr;
 
+		// Delete the operator, if its solver was given a newer context and thus did not do it
+		delete reinterpret_cast<BlastedPreconditioner*>(temp->bprec);
+
 		// delete the Blasted node
 		delete temp;
 
@@ -410,6 +415,7 @@ PetscErrorCode cleanup_blasted(PC pc)
 	ierr = PCShellGetContext(pc, (void**)&ctx); CHKERRQ(ierr);
 	BlastedPreconditioner* prec = reinterpret_cast<BlastedPreconditioner*>(ctx->bprec);
 	delete prec;
+	ctx->bprec = NULL;
 
 	return ierr;
 }
-- 
2.43.0


From 90c65b87bdda01a7aeef2038dfd417fc2052e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:16 +0000
Subject: [PATCH 31/39] fix: an error of KSPGetPC is not ignored when a PETSc
 solver is set up

---
 src/blasted_petsc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 84acae6..0f1846f 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -708,7 +708,7 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 
 	PC pc, subpc;
 
-	KSPGetPC(ksp, &pc);
+	ierr = KSPGetPC(ksp, &pc); CHKERRQ(ierr);
 	PetscBool isshell;
 	ierr = PetscObjectTypeCompare((PetscObject)pc,PCSHELL,&isshell); CHKERRQ(ierr);
 
-- 
2.43.0


From 5831b7bbb4bb5608fb72656803d4a9a2d40a93a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 32/39] fix: matrices with empty rows were refused, or read out
 of bounds, when read into PETSc entry by entry

---
 src/utils/blasted_petsc_io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index 8c46996..cf1f6b7 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -76,9 +76,11 @@ PetscErrorCode readMatFromCOOFile(const char *const file, MPI_Comm comm, Mat *co
 	//#pragma omp parallel for default(shared)
 	for(PetscInt irow = 0; irow < cmat.numrows(); irow++)
 	{
+		const int ncols = rowptrs[irow+1]-rowptrs[irow];
+		if(ncols == 0)
+			continue;
 		if(irow != entries[rowptrs[irow]].rowind)
 			throw std::runtime_error("Encountered invalid COO row indices!");
-		const int ncols = rowptrs[irow+1]-rowptrs[irow];
 		// if(irow % 100 == 0) {
 		// 	std::cout << "  " << irow << ", nzcols = " << ncols << std::flush;
 		// }
-- 
2.43.0


From 773106a2b0cd13a22bd050739d2768218f75dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 33/39] fix: an error of PETSc while the entries of a matrix
 are set is not overwritten by the next row

---
 src/utils/blasted_petsc_io.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index cf1f6b7..19ed38d 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -97,10 +97,9 @@ PetscErrorCode readMatFromCOOFile(const char *const file, MPI_Comm comm, Mat *co
 		{
 			ierr = MatSetValues(*A, 1, &irow, ncols, &colinds[0], &values[0], INSERT_VALUES);
 		}
+		CHKERRQ(ierr);
 	}
 
-	CHKERRQ(ierr);
-
 	std::cout << "  Beginning assembly of matrix..\n" << std::endl;
 	ierr = MatAssemblyBegin(*A, MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
 	ierr = MatAssemblyEnd(*A, MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
-- 
2.43.0


From 7e4522fe93f1f390428db13e27cf2e5786d29fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 34/39] fix: the matrix created to get the block size leaked
 when a scalar matrix is read into PETSc

---
 src/utils/blasted_petsc_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index 19ed38d..2578b69 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -160,6 +160,8 @@ PetscErrorCode readMatFromCOOFile_viaSR(const char *const file, MPI_Comm comm, M
 	std::cout << "  Converted matrix to (B)CSR." << std::endl;
 
 	if(bs == 1) {
+		// a new matrix is created; the one above was only needed for the block size
+		ierr = MatDestroy(A); CHKERRQ(ierr);
 		ierr = MatCreateMPIAIJWithArrays(PETSC_COMM_SELF, rmat->nbrows, rmat->nbrows,rmat->nbrows,
 		                                 rmat->nbrows, &rmat->browptr[0], &rmat->bcolind[0], &rmat->vals[0], A);
 		CHKERRQ(ierr);
-- 
2.43.0


From 21a7eac9856ec181916ce963ae630b9f07a11258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 35/39] fix: matrices whose last block-rows are empty aborted
 (assertion) when read into PETSc by blocks

---
 src/utils/blasted_petsc_io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index 2578b69..1f1b629 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -173,9 +173,11 @@ PetscErrorCode readMatFromCOOFile_viaSR(const char *const file, MPI_Comm comm, M
 		ierr = MatSetUp(*A); CHKERRQ(ierr);
 		ierr = MatSetOption(*A, MAT_ROW_ORIENTED, PETSC_FALSE); CHKERRQ(ierr);
 		for(PetscInt i = 0; i < rmat->nbrows; i++) {
+			const PetscInt ncols = rmat->browptr[i+1]-rmat->browptr[i];
+			if(ncols == 0)
+				continue;
 			const PetscInt *const colinds = &rmat->bcolind[rmat->browptr[i]];
 			const PetscReal *const values = &rmat->vals[rmat->browptr[i]*bs*bs];
-			const PetscInt ncols = rmat->browptr[i+1]-rmat->browptr[i];
 			if(bs == 1)
 				ierr = MatSetValues(*A, 1, &i, ncols, colinds, values, INSERT_VALUES);
 			else
-- 
2.43.0


From d39da47f39924a4cf80bf0ee048401bc45c9599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 36/39] fix: string options lost their last character at the
 maximum length, and leaked the buffer when missing

---
 src/utils/cmdoptions.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index f03d193..0a38a37 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -106,13 +106,12 @@ std::string parsePetscCmd_string(const std::string optionname, const size_t p_st
 {
 	StatusCode ierr = 0;
 	PetscBool set = PETSC_FALSE;
-	char* tt = new char[p_strlen+1];
-	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt, p_strlen, &set); petsc_throw(ierr);
+	std::vector<char> tt(p_strlen+1);
+	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt.data(), p_strlen+1, &set); petsc_throw(ierr);
 	if(!set) {
 		throw InputNotGivenError(std::string("String ") + optionname + std::string(" not set"));
 	}
-	const std::string stropt = tt;
-	delete [] tt;
+	const std::string stropt = tt.data();
 	return stropt;
 }
 
-- 
2.43.0


From 77844c6af63c7a7652a932952acc372f7e3dee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 37/39] fix: a missing optional array gives an empty array, as
 documented, instead of an exception

---
 src/utils/cmdoptions.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index 0a38a37..6361371 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -144,11 +144,9 @@ std::vector<int> parseOptionalPetscCmd_intArray(const std::string optionname, co
 
 	ierr = PetscOptionsGetIntArray(NULL, NULL, optionname.c_str(), &arr[0], &len, &set);
 	petsc_throw(ierr);
+	if(!set)
+		len = 0;
 	arr.resize(len);
-
-	if(!set) {
-		throw InputNotGivenError(std::string("Array ") + optionname + std::string(" not set"));
-	}
 	return arr;
 }
 
-- 
2.43.0


From 507f77b12b9e573c0cf9656c6f339b8578156ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 38/39] fix: the diagonal position of rows without a diagonal
 entry was left uninitialised in the scalar conversion

---
 src/coomatrix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 6806243..323f20c 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -268,6 +268,8 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToCSR() const
 
 	for(index i=0; i < nrows; i++)
 	{
+		// rows without a diagonal entry are marked, as in the block conversion
+		cmat.diagind[i] = -1;
 		for(index j = rowptr[i]; j < rowptr[i+1]; j++)
 		{
 			if(entries[j].colind == entries[j].rowind)
-- 
2.43.0


From 54a60df8cde567240e1fa05edce73a6b912b05c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:43 +0000
Subject: [PATCH 39/39] fix: mark block rows without a diagonal block when only
 the structure is given

BSRMatrix's structure constructor and setStructure left the diagonal position of a row without a
diagonal entry uninitialised, so isEqual reported such a matrix different from an equal one, at
random. Use -1, as the conversions from COOMatrix do.
---
 src/blockmatrices.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index e068159..f6984eb 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -191,6 +191,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) 
 	{
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -292,6 +293,7 @@ void BSRMatrix<scalar,index,bs>::setStructure(const index n_brows,
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) 
 	{
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -477,6 +479,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index n_brows,
 
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) {
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
@@ -582,6 +585,7 @@ void BSRMatrix<scalar,index,1>::setStructure(const index n_brows,
 
 	// set diagonal blocks' locations
 	for(index irow = 0; irow < mat.nbrows; irow++) {
+		mat.diagind[irow] = -1;
 		for(index j = mat.browptr[irow]; j < mat.browptr[irow+1]; j++)
 			if(mat.bcolind[j] == irow) {
 				mat.diagind[irow] = j;
-- 
2.43.0

