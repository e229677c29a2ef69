#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays readable)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])], "hook_needed": None}})

ONE = "The build's solver tests run one small matrix per solver at one thread; "
p("C01", "Asynchronous ILU(0) factorisation reaches the exact factors on every schedule",
  "Building an ILU(0) preconditioner (scalar or block, with or without symmetric scaling, any initialisation) with enough asynchronous sweeps gives exactly the incomplete LU factors of the sequential algorithm, for every sparsity pattern and for every interleaving in which updates are delayed by a bounded number of sweeps. With one thread, or with sequential factorisation requested, a single sweep is already exact. Once at the exact factors, further sweeps never move them, however the threads interleave.",
  ["schedules", "inputs", "configurations"],
  "all interleavings (bounded delay) of 2-3 threads x all sparsity patterns of small matrices x block sizes/layouts x scaling x initialisation x chunk size",
  ONE + "asynchronous factorisation is never run with more than one thread, so no interleaving at all is exercised, and only one pattern is.",
  ["src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/kernels/kernels_ilu0_factorize.hpp", "src/solverops_ilu0.cpp", "include/solverops_ilu0.hpp"],
  [("fixed-point update of each unknown from a full partial sum, published with one store", "src/kernels/kernels_ilu0_factorize.hpp: async_ilu0_factorize_kernel, async_block_ilu0_factorize"),
   ("sweeps over dynamically scheduled rows without barrier", "src/async_ilu_factor.cpp: executeILU0Factorization")],
  ["result of apply() of a preconditioner built with sequential application"],
  [("iluvals", "unknowns of the fixed point iteration, shared by all threads", "include/solverops_ilu0.hpp")])
p("C02", "Asynchronous ILU(0) application solves the triangular systems on every schedule",
  "Applying an ILU(0) preconditioner with asynchronous triangular solves and enough sweeps returns exactly U^-1 L^-1 r (with the symmetric scaling applied on both sides when requested) for every interleaving with bounded delay, every sparsity pattern, right-hand side and initialisation (zero or Jacobi). Sequential application, or one thread, is exact with one sweep.",
  ["schedules", "inputs", "configurations"],
  "all interleavings (bounded delay) of 2-3 threads x all small patterns x layouts x scaling x initialisation x chunk size",
  ONE + "threaded application of the triangular factors is never interleaved.",
  ["src/solverops_ilu0.cpp", "src/kernels/kernels_ilu_apply.hpp", "include/solverops_ilu0.hpp"],
  [("asynchronous Jacobi iteration for Ly=Sr and Uz=y, one row per update", "src/solverops_ilu0.cpp: scalar_ilu0_apply, block_ilu0_apply")],
  ["output vector of apply()"], [("ytemp", "intermediate vector between the two triangular solves", "include/solverops_ilu0.hpp")])
p("C03", "Symmetric Gauss-Seidel preconditioner is exact SGS on every schedule",
  "Applying the SGS preconditioner (scalar or block) with enough asynchronous sweeps returns exactly (D+U)^-1 D (D+L)^-1 r for every interleaving with bounded delay, every small pattern, right-hand side and initialisation; with one thread one sweep is exact. The previous contents of the output vector never influence the result when an initialisation is requested.",
  ["schedules", "inputs", "configurations"], "all interleavings (bounded delay) of 2-3 threads x all small patterns x block layouts x initialisation x chunk size",
  ONE + "the asynchronous sweeps are never interleaved.",
  ["src/solverops_sgs.cpp", "include/solverops_sgs.hpp", "src/kernels/kernels_sgs.hpp"],
  [("forward then backward asynchronous sweeps", "src/solverops_sgs.cpp: AsyncSGS_SRPreconditioner::apply, AsyncBlockSGS_SRPreconditioner::apply")],
  ["output vector of apply()"], [("ytemp", "result of the forward sweep", "include/solverops_sgs.hpp")])
p("C04", "Chaotic Gauss-Seidel operators have the right fixed point on every schedule",
  "Gauss-Seidel and SGS relaxation started at the exact solution of Ax=b stay there, whatever the interleaving, thread count or chunk size, and with one thread a relaxation of k iterations is exactly k Gauss-Seidel (or symmetric Gauss-Seidel) iterations from the given initial guess. The Gauss-Seidel preconditioner applied with one thread is exactly k forward Gauss-Seidel sweeps from a zero guess; for a lower triangular matrix enough sweeps reach the exact solution on every bounded-delay interleaving.",
  ["schedules", "inputs", "configurations"], "all interleavings of 2-3 threads (preemption bounded) x all small patterns x layouts x sweeps",
  ONE + "the relaxation entry points are not exercised by any stable test.",
  ["src/relaxation_chaotic.cpp", "include/relaxation_chaotic.hpp", "src/solverops_sgs.cpp", "src/kernels/kernels_relaxation.hpp"],
  [("each row update uses all off-diagonal entries of the current iterate", "src/kernels/kernels_relaxation.hpp")], ["x after apply() / apply_relax()"])
p("C05", "Jacobi preconditioner and tolerance-controlled Jacobi relaxation",
  "The (block-)Jacobi preconditioner multiplies by the inverse of the (block) diagonal. Its relaxation performs exactly the documented number of Jacobi iterations from the given initial guess: the maximum when tolerances are not checked, otherwise it stops as soon as the update is within the absolute tolerance, the relative tolerance (against the first update) or beyond the divergence tolerance, independent of thread count and schedule.",
  ["inputs", "configurations", "schedules"], "all small patterns x block layouts x tolerance settings x iteration limits x 1-3 threads",
  ONE + "tolerance handling and the number of iterations performed are never checked.",
  ["src/solverops_jacobi.cpp", "include/solverops_jacobi.hpp", "include/solverops_base.hpp"],
  [("stopping test on the norm of the update", "src/solverops_jacobi.cpp: apply_relax")], ["x after apply() / apply_relax()"])
p("C06", "Level schedules are valid and complete",
  "For every matrix whose rows are sorted and contain their diagonal and whose pattern is symmetric, the computed levels are consecutive ranges covering every row exactly once, and no row of a level is coupled to another row of the same level. Consequently processing the rows of a level in any order or in parallel gives the sequential result.",
  ["inputs"], "all symmetric sparsity patterns up to n rows, plus structured larger ones, scalar and block",
  "One mesh-derived matrix is compared with a stored list; nothing covers patterns with isolated rows, dense rows or a single row.",
  ["src/levelschedule.cpp", "include/levelschedule.hpp"], [("scan of rows against the current level's first row", "src/levelschedule.cpp: computeLevels")], ["the returned level list"])
p("C07", "Level-scheduled SGS and ILU equal the sequential operator on every schedule",
  "Level-scheduled SGS (scalar and block) applied to any vector gives the exact sequential SGS result, and level-scheduled ILU(0) gives the exact triangular solves of its factors, for every thread count, every interleaving, and every pattern with symmetric structure. Level-scheduled SGS relaxation of k iterations equals k sequential symmetric Gauss-Seidel iterations.",
  ["schedules", "inputs"], "all interleavings (DPOR-reduced, preemption bounded) of 2-4 threads x all symmetric small patterns x layouts",
  "No stable test runs the level-scheduled operators with more than one thread, and the ILU variant is not run at all.",
  ["src/solverops_levels_sgs.cpp", "src/solverops_levels_ilu0.cpp", "include/solverops_levels_sgs.hpp", "include/solverops_levels_ilu0.hpp"],
  [("a work-sharing loop with an implicit barrier per level", "src/solverops_levels_sgs.cpp, src/solverops_levels_ilu0.cpp")], ["output vector of apply()/apply_relax()"])
p("C08", "Preconditioner results depend only on the current matrix and input",
  "Whatever sequence of matrix value changes, compute(), apply() and relaxation calls an operator has been through, the next compute() followed by apply() gives the same result as a freshly created operator on the current matrix and input; applying never changes what a later apply returns, and repeated compute() neither leaks nor corrupts memory.",
  ["histories", "configurations"], "all operation sequences up to a depth over {change values, compute, apply x1, apply x2, relax} x every operator type and block layout",
  "Every test performs exactly one compute followed by a fixed solve.",
  ["src/solverops_ilu0.cpp", "src/solverops_sgs.cpp", "src/solverops_jacobi.cpp", "src/relaxation_chaotic.cpp", "src/solverops_levels_sgs.cpp", "src/solverops_levels_ilu0.cpp"],
  [("first-time set-up guarded by null checks, values refreshed by each compute()", "src/solverops_ilu0.cpp: compute")], ["apply() against a fresh operator"])
p("C09", "Operators touch only their own data",
  "Creating, computing and applying any operator reads only inside the arrays describing the matrix and vectors, never modifies the matrix or the input vector, writes every entry of the output vector and nothing else, and releases everything it allocated; two operators on the same matrix do not influence each other.",
  ["inputs", "histories", "configurations"], "all small patterns (including 1x1, diagonal-only, dense, arrow) x every operator type, layout and option x 1-3 threads, with every memory access checked",
  "Out-of-range reads and stray writes are invisible to tests that only compare norms.",
  ["src/solverops_ilu0.cpp", "src/solverops_sgs.cpp", "src/solverops_jacobi.cpp", "src/solverops_base.cpp", "src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp"],
  [("views of the matrix arrays, privately allocated aligned work arrays", "src/solverops_base.cpp")], ["every load and store of library code, and the allocator"])
p("C10", "Matrix-vector products are correct for every pattern, layout and thread count",
  "apply gives y = Ax and gemv3 gives z = aAx + by (y may be z) for every sparsity pattern with at least one stored entry, including empty rows and triangular-part views, every supported block size and layout, any coefficients, any thread count and schedule; owning matrices and views of the same arrays give the same result.",
  ["inputs", "schedules", "configurations"], "all patterns of small matrices x block sizes {1,3,4,5,7} x layouts x coefficient alphabet x 1-3 threads x all schedules",
  "Two stored matrices with one vector are tested; coefficients 0, rows without entries, partial rows and several threads are not.",
  ["src/blas/matvecs.cpp", "src/blockmatrices.ipp", "src/bsrmatrix.cpp", "src/csrmatrix.cpp", "include/blockmatrices.hpp"],
  [("row loop with block products", "src/blas/matvecs.cpp: matrix_apply, gemv3")], ["output vectors"])
p("C11", "Concurrent assembly loses no contribution",
  "Adding blocks to a matrix with the documented thread-safe update operations gives, for every interleaving of concurrent updates to the same or different blocks, the sum of all contributions; submitting a block stores exactly the passed entries at the addressed positions (whatever the block offset arguments and storage order), and touches nothing else.",
  ["schedules", "inputs"], "all interleavings (preemption bounded) of 2-3 threads updating overlapping blocks x block sizes x shapes of the submitted block",
  "Assembly is only ever done by one thread in the tests and updateBlock is never called.",
  ["src/blockmatrices.ipp", "include/blockmatrices.hpp", "src/bsrmatrix.cpp"],
  [("omp atomic update of every entry", "src/blockmatrices.ipp: updateBlock, updateDiagBlock")], ["matrix values after the parallel section"])
p("C12", "In-place matrix operations and queries",
  "Setting all entries or the diagonal to zero, scaling by a constant, copying, and comparing matrices do exactly that for every pattern and block size: copies are deep and equal, equality means same pattern and values, the diagonal queries report precisely the zero or non-positive diagonal entries, and dimensions and non-zero counts describe the stored pattern after every construction route.",
  ["inputs", "histories"], "all small patterns x block sizes x all sequences of operations up to a depth against a dense reference model",
  "Only construction followed by one product or one comparison is tested.",
  ["src/blockmatrices.ipp", "src/bsrmatrix.cpp", "include/blockmatrices.hpp", "src/rawsrmatrixutils.cpp"],
  [("loops over stored blocks addressed through row and diagonal pointers", "src/blockmatrices.ipp")], ["public accessors, apply()"])
p("C13", "Matrix storage and views: ownership is never lost, duplicated or shared",
  "Along every sequence of constructing, wrapping, moving, resizing, copying and destroying array views and sparse-matrix storage objects, owned data is freed exactly once, wrapped data is never freed or modified by the library, and every object still reads the contents it is documented to refer to; a moved-from or wrapped object never invalidates another.",
  ["histories"], "all operation sequences up to a depth over a small pool of objects, against an ownership model, with every allocation and access checked",
  "The tests create one object of each kind and never move, resize or take control of data.",
  ["include/arrayview.hpp", "include/srmatrixdefs.hpp", "src/rawsrmatrixutils.cpp", "include/device_container.hpp"],
  [("owner flag of ArrayView", "include/arrayview.hpp")], ["array contents, allocator"])
p("C14", "Matrix Market files are read exactly or rejected",
  "Reading a coordinate-format file yields precisely the general real matrix the file describes - 1-based indices, comments and blank space included, rows without entries and rectangular shapes included, entries in any order - and every file whose header announces an unsupported kind (dense, symmetric, skew-symmetric, hermitian, complex, pattern), which is malformed or truncated, or which cannot be opened, is reported by an exception rather than by a crash or a wrong matrix. The same holds for dense vector files.",
  ["inputs"], "all files generated from a grammar of headers, comments, sizes and entry orders up to a bound, including unsupported and malformed ones",
  "Half a dozen well-formed stored files are read; no rejected or reordered file is.",
  ["src/coomatrix.cpp", "include/coomatrix.hpp"], [("banner parser, entry reader, sort by row", "src/coomatrix.cpp: getMMDescription, readMatrixMarket")], ["converted matrix, thrown exceptions"])
p("C15", "COO to CSR/BSR conversion is exact with sorted rows",
  "Converting coordinate data to compressed rows keeps every entry at its place with its value, fills the unset entries of touched blocks with zeros, gives row pointers that partition the entries, columns strictly increasing within every (block-)row, and diagonal positions that point at the diagonal; the layout inside a block follows the requested storage order.",
  ["inputs"], "all sets of coordinate entries of small matrices in all entry orders x block sizes x layouts",
  "Two stored matrices are converted; entry sets whose scalar rows touch different block columns are not.",
  ["src/coomatrix.cpp", "include/coomatrix.hpp"], [("entries sorted by row then column; blocks collected per block-row", "src/coomatrix.cpp: convertToCSR, convertToBSR")], ["raw arrays of the result"])
p("C16", "Row to column conversion, column adjacency and column-wise products",
  "Converting a sparse-row matrix to sparse columns (0- or 1-based), or computing its column adjacency, keeps exactly the same entries with row indices increasing in every column, correct diagonal positions and correct back-pointers; the column-wise product z = aAx + by equals the row-wise one for every pattern, thread count and interleaving.",
  ["inputs", "schedules"], "all patterns of small square matrices x block sizes x all interleavings (preemption bounded) of 2-3 threads of the column-wise product",
  "One matrix each is tested, single-threaded or with an uncontrolled schedule.",
  ["src/scmatrix.cpp", "src/adjacency.cpp", "src/blas/matvecs.cpp", "include/scmatrixdefs.hpp"],
  [("counting pass, prefix sum, scatter pass", "src/scmatrix.cpp: convert_BSR_to_BSC"), ("atomic accumulation into z", "src/blas/matvecs.cpp: bcsc_gemv3")], ["column arrays, output vector"])
p("C17", "ILU position lists enumerate exactly the products of the factorisation",
  "For every sparsity pattern with sorted rows and full diagonal, the list attached to each stored entry (i,j) contains exactly the pairs of stored entries (i,k),(k,j) with k < min(i,j), once each; the lists partition the list arrays in storage order.",
  ["inputs"], "all patterns of matrices up to n=4 (and structured larger ones), 1-3 threads and all schedules",
  "Only used indirectly through one or two solves.",
  ["src/ilu_pattern.cpp", "include/ilu_pattern.hpp", "src/helper_algorithms.hpp"], [("two-pass merge of row and column pattern", "src/ilu_pattern.cpp: compute_ILU_positions_CSR_CSR")], ["position list arrays"])
p("C18", "Reordering and scaling are exact and invertible",
  "Applying a row/column ordering (with or without scalings) to a matrix and to vectors gives precisely the permuted, scaled matrix and vectors; rows stay sorted, diagonal positions point at the diagonal, the inverse transformation restores the original matrix and vectors, for all permutations, patterns, block sizes and thread counts.",
  ["inputs", "schedules"], "all permutation pairs of up to 4 (block-)rows x patterns x block sizes x 1-3 threads",
  "Two permutations of one stored matrix are tested.",
  ["src/reorderingscaling.cpp", "include/reorderingscaling.hpp"], [("row move, column renumbering, sort within rows", "src/reorderingscaling.cpp: applyOrdering, applyScaling")], ["matrix arrays, vectors"])
p("C19", "Reordered ILU operator solves with the original ordering's unknowns",
  "An ILU(0) operator built on a reordered and scaled matrix, applied to a right-hand side in the original ordering, returns the solution in the original ordering: for matrices on which ILU(0) of the reordered matrix is exact it solves Ax = b, for every row and column permutation and scaling.",
  ["inputs", "configurations"], "all permutation pairs of 3-4 rows x full patterns x scalings x threads",
  "One stored system with one computed ordering is solved.",
  ["src/solverops_ilu0.cpp", "include/solverops_ilu0.hpp", "src/reorderingscaling.cpp"], [("reorder rhs by rows, solve, undo the column ordering", "src/solverops_ilu0.cpp: ReorderedAsyncILU0_SRPreconditioner")], ["output of apply()"])
p("C20", "Scan, prefix-sum and block sorting helpers",
  "The inclusive scans and the parallel exclusive prefix sum return the exact sums for every length (including 0 and 1, and fewer entries than threads), every thread count and every interleaving; sorting an inner dimension permutes indices and blocks together into ascending order; index search finds exactly the matching position; the maximum norm of a vector is the largest magnitude of its entries.",
  ["inputs", "schedules", "configurations"], "all lengths up to a bound x 1-8 threads x all interleavings (DPOR-reduced, preemption bounded); all permutations of short index arrays",
  "One length with one or four threads is tested.",
  ["src/utils/prefix_sum.cpp", "src/helper_algorithms.cpp", "src/helper_algorithms.hpp"], [("per-thread partial sums and tree combine with barriers", "src/utils/prefix_sum.cpp")], ["returned arrays"])
p("C21", "Sparse approximate inverse patterns and values",
  "The left SAI and incomplete SAI patterns list, for every row, exactly the matrix entries of its least-squares problem and map them to the right local positions; the computed approximate inverse minimises ||e_i - m A|| row by row over the prescribed pattern, independent of thread count and schedule.",
  ["inputs", "schedules"], "all symmetric-structure patterns up to n=4 x block sizes {1,4} x 1-3 threads",
  "Pattern tables for two hand-made matrices are compared; values only for a Poisson problem that is not built here.",
  ["src/sai.cpp", "src/sai.hpp"], [("pattern gather followed by a small dense least-squares solve per row", "src/sai.cpp")], ["pattern arrays, approximate inverse values"])
p("C22", "The factory builds what was asked for, or refuses",
  "For every combination of solver name, block size, storage order and options the factory either returns an operator with the requested algorithm, dimension, sweeps, scaling, threading and diagnostics, or throws an invalid-argument error; unknown names are refused; no option is silently dropped or exchanged.",
  ["configurations"], "the full product of solver names, block sizes, layouts, scaling, init types, sweep counts and diagnostics flags",
  "A few combinations are constructed; wrong mappings that still converge pass.",
  ["src/solverfactory.cpp", "include/solverfactory.hpp", "include/async_initialization_decl.hpp", "src/solverops_levels_ilu0.cpp"], [("dispatch on type, block size and layout", "src/solverfactory.cpp")], ["dimension, relaxationAvailable, results of apply with few sweeps, returned diagnostics"])
p("C23", "Diagnostics of the factorisation are exact and schedule independent",
  "When requested, compute() reports the initial and final remainder ||A - LU|| over the pattern (entrywise 1-norm of the scaled matrix) and the minimum and average diagonal dominance of both factors, equal to their definitions for the factors actually obtained, for every pattern, initialisation, thread count and schedule; requesting them does not change the factors.",
  ["inputs", "schedules", "configurations"], "all small patterns x block layouts x scaling x initialisation x 1-3 threads",
  "The reported numbers are never compared with anything in the stable tests.",
  ["src/async_ilu_factor.cpp", "src/async_blockilu_factor.cpp", "src/matrix_properties.cpp", "include/preconditioner_diagnostics.hpp"], [("reductions over rows", "src/async_ilu_factor.cpp: scalar_ilu0_nonlinear_res; src/matrix_properties.cpp: diagonal_dominance")], ["returned PrecInfo"])
p("C24", "Column-oriented backward Gauss-Seidel is exact sequentially",
  "Run by one thread, the column-oriented backward Gauss-Seidel preconditioner solves (D+U) z = r exactly for every sparsity pattern, right-hand side, sweep count and chunk size, also when recomputed after value changes.",
  ["inputs", "histories"], "all small patterns x sweeps x chunk sizes x recompute histories",
  ONE + "only one matrix is used.", ["src/solverops_sgs.cpp", "src/scmatrix.cpp", "include/solverops_sgs.hpp"],
  [("scatter of each solved unknown through its column", "src/solverops_sgs.cpp: CSC_BGS_Preconditioner::apply")], ["output of apply()"])
p("C25", "PETSc shell interface: set-up, options and life cycle",
  "For every nesting of PETSc solvers (block Jacobi, Schwarz, nested KSP, multigrid) containing shell preconditioners, setting up the stack gives each shell solver one context of its own with an operator made by the given (or default) factory. Each shell solver then applies, and relaxes with, exactly the operator, sweep counts, initialisations, chunk size, scaling and diagnostics that the options request (a negative sweep count requests the sequential variant of an ILU(0) operator and is refused for others), for the matrix values of its latest set-up, through every sequence of set-ups, applications, relaxations and value changes; relaxation is offered exactly by the operators that have one and runs the requested number of iterations. Setting up again replaces the operator; one diagnostic record is kept per computation; total times are the sums over the contexts; destruction in the documented order frees everything once. Distributed matrices, unsupported block sizes, several subdomains per rank, missing diagonals and unknown names are reported as errors, and every error of a PETSc call is passed on.",
  ["histories", "configurations", "crash_points"], "all call histories up to a depth over 13 solver trees x 11 operators, the full option product, a fault at every PETSc call, on the real interface code linked with a small stand-in of PETSc",
  "Not part of the build here (needs PETSc's private headers), so no test covers it.",
  ["src/blasted_petsc.cpp", "include/blasted_petsc.h", "include/blasted_petsc_ext.hpp"],
  [("walk over the solver tree, one context per shell", "src/blasted_petsc.cpp: setup_blasted_stack_with"), ("mapping of options to settings", "src/blasted_petsc.cpp: setupDataFromOptions, setSweeps_checkSeq, createNewPreconditioner"), ("context list and first_setup_done flag", "src/blasted_petsc.cpp")], ["vectors passed to the shell callbacks, error codes, context list, allocator"])
p("C26", "Matrices, vectors and options reach PETSc unchanged",
  "Reading a Matrix Market file into a PETSc matrix, entry by entry or through block rows, gives exactly the entries of the file for every sparsity pattern (empty rows and block-rows included), entry order and block size 1, 3, 4 or 7 (other sizes by rows), and reading a vector gives its values in order. Every option reader returns exactly the value given (integers, reals, truth values, strings cut at the maximum length, integer arrays cut at the maximum number), reports a missing required input, and uses the default of a missing optional one. Every error of a PETSc call, and reading block rows on several ranks, is reported; nothing is leaked.",
  ["inputs", "configurations", "crash_points"], "all scalar patterns up to 3 x 3 in 3 entry orders, entries and block patterns up to 3 block-rows of sizes 3, 4, 7, all option values of a grammar x maximum lengths, a fault at every PETSc call",
  "Not part of the build here (needs PETSc), so no test covers it.",
  ["src/utils/blasted_petsc_io.cpp", "src/utils/cmdoptions.cpp", "include/utils/cmdoptions.hpp"],
  [("row-wise and block-wise insertion", "src/utils/blasted_petsc_io.cpp: readMatFromCOOFile, readMatFromCOOFile_viaSR"), ("option readers", "src/utils/cmdoptions.cpp")], ["contents of the PETSc objects, returned values, exceptions and error codes, allocator"])
with open(__file__.replace("gen_properties.py", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
