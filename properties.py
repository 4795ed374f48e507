# The properties: one prop(...) per line of properties.jsonl (see meta.py)
OPS = ['src/hif/builder.hpp', 'src/hif/alg/factor.hpp', 'src/hif/alg/pivot_factor.hpp', 'src/hif/alg/symm_factor.hpp',
       'src/hif/alg/prec_solve.hpp', 'src/hif/alg/prec_prod.hpp', 'src/hif/alg/Schur.hpp', 'src/hif/pre/driver.hpp']
prop('P01', 'Factorization without dropping is exact',
     'When nothing is dropped, a factorized preconditioner of any well-conditioned nonsingular square matrix is the matrix itself: '
     'solving applies its inverse, multiplying applies it, and the transposed variants apply the adjoints, up to rounding. '
     'This holds for every admissible setting of pivoting, preprocessing, reordering, deferral thresholds, level structure, symmetric '
     'mode and symmetric leading block, and for row and column storage.',
     ['inputs', 'configurations'],
     'all small real and complex matrices (every 2x2 over 6 values, every 3x3 zero pattern and every 3x3 matrix over 3 values, every 4x4 pattern, '
     'every 7x7 circulant and 6x6 band pattern, 20 structure classes up to n=31) times the product of the configurations; 20 structure classes of the orders 48, 77 and 130 under rotating configurations (thorough: and 200)',
     'the tests factorize random matrices with default-like options and only check that the residual is small; they never compare all '
     'operators, and never sweep the configuration product, where permutation, scaling and level-coupling mistakes hide',
     OPS, [('multilevel factorization', 'src/hif/builder.hpp:HIF::_factorize_kernel'), ('Crout update with deferring', 'src/hif/alg/factor.hpp:level_factorize'),
           ('pivoted Crout', 'src/hif/alg/pivot_factor.hpp'), ('symmetric kernel', 'src/hif/alg/symm_factor.hpp'), ('level recursion of solve', 'src/hif/alg/prec_solve.hpp:prec_solve'),
           ('level recursion of multiply', 'src/hif/alg/prec_prod.hpp:prec_prod')],
     EN, 'Exact over the stated finite matrix spaces and configuration products; compared with dense Gauss-Jordan in double precision (tolerance scaled by the '
     'condition number, inputs above 1e9 are skipped and counted). Larger matrices and other values are outside the bound.',
     ['HIF::solve', 'HIF::mmultiply', 'HIF::rank'])
prop('P02', 'Transposed operators are the adjoints, whatever was dropped',
     'For every factorized preconditioner, however incomplete, the transposed solve is the adjoint (conjugate transpose) of the solve, and the transposed '
     'multiplication is the adjoint of the multiplication.',
     ['inputs', 'configurations'], 'the matrix spaces of P01 (singular ones included) times dropping/space-control/pivoting/preprocessing configurations, plus symmetric mode; 20 structure classes of the orders 48, 77 and 130 under rotating configurations (thorough: and 200)',
     'tests check transposition on a few random real systems through the residual of A^T; complex conjugation, dropping and multilevel coupling in the transposed path are not compared with the forward path',
     OPS + ['src/hif/small_scale/QRCP.hpp', 'src/hif/small_scale/SYEIG.hpp'], [('transposed solve', 'src/hif/alg/prec_solve.hpp:prec_solve_tran'), ('transposed product', 'src/hif/alg/prec_prod.hpp:prec_prod_tran')],
     EN, 'Every operator is read out column by column (complete, by linearity). Ill-conditioned results (above 1e11) are skipped and counted.', ['HIF::solve(trans)', 'HIF::mmultiply(trans)'])
prop('P03', 'Multiplication undoes solution and vice versa',
     'For every factorized preconditioner, however incomplete, multiplying and solving are inverses of one another in both orders, also in transposed form; when the final dense level '
     'is rank-deficient, or the caller asks for a smaller dimension of it, they are generalized inverses of one another.',
     ['inputs', 'configurations'], 'as P02; 20 structure classes of the orders 48, 77 and 130 under rotating configurations (thorough: and 200)',
     'tests only multiply with preconditioners computed from a few random matrices; the identity must hold for every drop pattern, deferral and rank outcome',
     OPS + ['src/hif/small_scale/QRCP.hpp', 'src/hif/small_scale/SYEIG.hpp', 'src/hif/small_scale/LUP.hpp'],
     [('multiplication', 'src/hif/alg/prec_prod.hpp'), ('solution', 'src/hif/alg/prec_solve.hpp'), ('dense level', 'src/hif/small_scale')],
     EN, 'Exact over the stated finite spaces; ill-conditioned results are skipped and counted.', ['HIF::solve', 'HIF::mmultiply'])
prop('P04', 'Multiple right-hand sides equal repeated single solves',
     'Solving for several right-hand sides at once gives, for every number of columns, the same solutions as solving for the columns one by one, leaves the right-hand sides '
     'untouched, and does not depend on which solves were performed before on the same object.',
     ['inputs', 'configurations', 'histories'], 'as P02, with 1, 2, 3, 4 and 8 columns, on used and unused objects, with default and explicit dimension of the dense level; 20 structure classes of the orders 48, 77 and 130 under rotating configurations (thorough: and 200)',
     'one test solves with a fixed number of columns on one kind of matrix; level coupling, strides and workspace reuse for other depths and widths are never compared',
     ['src/hif/alg/prec_solve.hpp', 'src/hif/builder.hpp', 'src/hif/ds/CompressedStorage.hpp', 'src/hif/utils/mv_helper.hpp'],
     [('multi-RHS level recursion', 'src/hif/alg/prec_solve.hpp:prec_solve_mrhs'), ('workspace', 'src/hif/builder.hpp:HIF::solve_mrhs')],
     EN, 'Exact over the stated finite spaces; the single-column solve is the oracle.', ['HIF::solve_mrhs'])
prop('P05', 'Results never depend on what an object did before',
     'The outcome of every operation on a preconditioner object depends only on its last factorization (system, parameters) and the arguments of the call: '
     'no sequence of earlier factorizations, failures, clears, solves, multiplications or refinements changes it, nor does copying, moving or swapping objects: a copy is the preconditioner it was taken from, and neither follows what happens to the other.',
     ['histories'], 'every sequence of operations over four systems with different parameters, an invalid factorization, one that runs out of memory half-way, clear, solve/multiply in all variants and refinement, up to depth 4 (5 thorough); all programs over two objects with copies, moves, swaps and assignments',
     'tests use an object for one or two operations in a fixed order; stale workspaces, ranks, statistics or dense factors only show after particular sequences',
     ['src/hif/builder.hpp', 'src/hif/alg/IterRefine.hpp', 'src/hif/NspFilter.hpp', 'src/hif/alg/Prec.hpp'],
     [('reset on refactorization', 'src/hif/builder.hpp:HIF::factorize'), ('clear', 'src/hif/builder.hpp:HIF::clear'), ('lazily created workspaces', 'src/hif/builder.hpp')],
     'exhaustive operation-sequence exploration (real object, differential oracle)', 'Exhaustive over sequences up to the depth; every step is compared with the same call on a fresh object.', ['HIF public interface'])
prop('P07', 'Accepting, deferring, interchanging and dropping obey the requested thresholds',
     'For every matrix and every setting of the thresholds, each level of the hierarchy is the one the documented rules lead to: a pivot is accepted exactly if its inverse and the incremental norm estimates of both inverse factors stay within their bounds for that level, else its row and column move behind the leading block; '
     'with pivoting, rows and columns are interchanged exactly when the threshold asks for it; an entry is left out exactly if it is below its scaled tolerance or beyond the space limit of its row or column, the largest ones staying; tolerances and limits of L and U act on L and U only, those of the offsets and of later levels follow their own rules; '
     'and the choices between another level, the dense level and a restart with pivoting, the Schur complement, and the reported numbers of deferrals and droppings agree. With unlimited thresholds nothing is deferred for conditioning or dropped.',
     ['inputs', 'configurations'], 'all patterns of order 3 x 3 value tables, all patterns of order 4 with full diagonal (thorough: all of order 4), all Hermitian ones of orders 3 and 4, all with a symmetric leading block of every size of order 3, all circulant ones of orders 5, 6, 7 and 9, modular ones up to order 12, each with 120 (48) combinations of tolerances, bounds, limits, pivoting, preprocessing and depth; real and complex; 20 structure classes of the orders 48, 77 and 130 under rotating configurations; sizing rules of the last level (explicit size, c_d, density threshold, rho, zero space limits)',
     'a preconditioner with misapplied thresholds is still a preconditioner, only a worse or a larger one; the tests look at none of the decisions',
     ['src/hif/alg/factor.hpp', 'src/hif/alg/symm_factor.hpp', 'src/hif/alg/pivot_factor.hpp', 'src/hif/alg/Crout.hpp', 'src/hif/alg/PivotCrout.hpp', 'src/hif/alg/thresholds.hpp', 'src/hif/alg/Schur.hpp', 'src/hif/builder.hpp'],
     [('decisions', 'src/hif/alg/factor.hpp:level_factorize'), ('pivoting', 'src/hif/alg/PivotCrout.hpp:PivotCrout::apply_thres_pivot'), ('dropping', 'src/hif/alg/thresholds.hpp:apply_space_dropping'), ('inverse norms', 'src/hif/alg/Crout.hpp:Crout::update_kappa'), ('offsets', 'src/hif/alg/Schur.hpp:drop_offsets_kernel')],
     'explicit-state exploration of a model of the factorization (states: accepted, waiting and deferred pivots with their factors; steps: interchange, accept, defer, drop), each run replayed on the real code',
     'The model computes densely and is bound to the code by comparing every level, factor, ordering, the dense matrix and the statistics. A run in which some decision changes under a relative perturbation of 1e-13, or lies within 1e-8 of its threshold, is skipped and counted. '
     'Preprocessing is taken from the code (its own property is P19); runs where rounding or the storage order changes that of a later level are compared up to there. Droppings are not compared with a partially symmetric leading block, where the code counts only part of them.', ['HIF::factorize', 'HIF::stats'])
prop('P08', 'Symmetric mode yields a self-adjoint preconditioner',
     'When a system is declared Hermitian, the preconditioner is itself Hermitian: solution and multiplication are self-adjoint, whatever was dropped, deferred, pivoted or permuted, and also when definiteness is declared.',
     ['inputs', 'configurations'], 'all Hermitian patterns of sizes 3, 4 and 5 with several value tables (real and complex), 20 structure classes, times all configurations; 20 Hermitian structure classes of the orders 48, 77 and 130 (thorough: and 200)',
     'one test uses the symmetric mode on real input; loss of symmetry leaves a preconditioner that still converges, so residual-based tests cannot see it',
     ['src/hif/alg/symm_factor.hpp', 'src/hif/small_scale/SYEIG.hpp', 'src/hif/builder.hpp', 'src/hif/pre/matching_scaling.hpp'],
     [('symmetric level kernel', 'src/hif/alg/symm_factor.hpp'), ('symmetric dense level', 'src/hif/small_scale/SYEIG.hpp')],
     EN, 'Exact over the stated finite spaces; ill-conditioned results are skipped and counted.', ['HIF::solve', 'HIF::mmultiply'])

prop('P06', 'Inputs are read-only and not referred to later',
     'Factorization, solving, multiplying and refining never write to the caller\'s matrix, parameters or right-hand side, not even temporarily, and never read outside of them; '
     'once factorized, a preconditioner does not refer to the matrix any more; and no result depends on what the output vector held before.',
     ['inputs', 'configurations'], 'all 3x3 patterns with several value tables, symmetric mode and leading blocks, 20 structure classes of size 5 to 31, row/column storage, zero- and one-based, '
     'with and without stored zeros, in the working and in single precision, times all configurations; 20 structure classes of the orders 48, 77 and 130 under rotating configurations',
     'tests never look at the inputs again, and a temporary change (scaling in place, shifting indices, restoring them later) is invisible to a test even if it looks',
     ['src/hif/builder.hpp', 'src/hif/pre/driver.hpp', 'src/hif/pre/matching_scaling.hpp', 'src/hif/alg/IterRefine.hpp', 'src/hif/alg/prec_solve.hpp'],
     [('wrapped user matrix', 'src/hif/builder.hpp:HIF::factorize'), ('index base shift in preprocessing', 'src/hif/pre/matching_scaling.hpp')],
     EN, 'Write protection makes every write observable at the instruction; exact over the stated finite space.', ['HIF::factorize', 'HIF::solve', 'HIF::mmultiply', 'HIF::hifir'])
prop('P09', 'Singular systems: numerical rank and generalized inverse',
     'Every square matrix, of whatever rank, is factorized. Without dropping, the reported rank is the rank of the matrix, everything stays finite, and the solve finds a solution of every consistent '
     'system: A X A = A for the solve operator X, also in transposed form, with multiplication inverting the solve on the range.',
     ['inputs', 'configurations'], 'all singular matrices among: every 2x2 over 6 values, every 3x3 over 3 values, all 4x4 patterns, weighted Laplacians of all graphs up to 5 (6 thorough) nodes, Hermitian patterns, '
     'and rank-deflated structure classes up to n=20 (nullity 1 to 3), full matrices of 8 orders up to 24 with dependent rows or columns at three places (nullity 1 to 3), times the configurations; singular graph Laplacians and low-rank systems of larger orders',
     'one test factorizes one kind of singular matrix; rank decisions, truncation and the coupling of the truncated level with the levels above depend on where the deficiency ends up',
     ['src/hif/builder.hpp', 'src/hif/small_scale/QRCP.hpp', 'src/hif/small_scale/SYEIG.hpp', 'src/hif/alg/prec_solve.hpp', 'src/hif/alg/prec_prod.hpp'],
     [('rank decision', 'src/hif/small_scale/QRCP.hpp:_est_rank_2norm'), ('truncated solve', 'src/hif/small_scale/QRCP.hpp:solve'), ('rank report', 'src/hif/builder.hpp:HIF::rank')],
     EN, 'Exact over the stated finite spaces; configurations that force deep hierarchies (or switch deferral off) on a singular matrix, where rounding hides the singularity, are skipped and counted.', ['HIF::rank', 'HIF::schur_rank', 'HIF::solve'])

prop('P10', 'Iterative refinement is the stated recursion with the stated stop',
     'Refining a solution computes x <- x + S(b - A x) for the requested number of steps, with S the (transposed) solve for the requested dimension of the dense level and A the given matrix, in row or column storage, or any '
     'callable operator. The variant with residual bounds stops at the first iterate whose relative residual meets the lower or exceeds the upper bound and reports the number of steps and which of the three ends occurred.',
     ['inputs', 'configurations', 'histories'], 'all 3x3 patterns, all 4x4 patterns with full diagonal, Hermitian patterns, 20 structure classes up to n=31 x configurations with dropping x operator kinds x transposition x dimensions of '
     'the dense level x 5 iteration counts and 6 bound pairs x 4 counts; 20 structure classes of the orders 48, 77 and 130 under rotating configurations; right-hand sides scaled by the smallest and largest representable powers',
     'one test runs refinement on one random system and looks at the residual; the path conditions (bounds, counts, transposition, operator kind) are not exercised',
     ['src/hif/alg/IterRefine.hpp', 'src/hif/builder.hpp', 'src/hif/utils/mt_mv.hpp', 'src/hif/utils/mv_helper.hpp'],
     [('refinement', 'src/hif/alg/IterRefine.hpp:IterRefine::iter_refine'), ('operator dispatch', 'src/hif/utils/mv_helper.hpp:multiply')],
     EN, 'Every iterate and every return value is compared with the recursion evaluated densely, within a propagated rounding bound; cases at a bound up to rounding are skipped and counted.', ['HIF::hifir'])
prop('P11', 'Null-space filters act on exactly what they are attached to',
     'A filter removes the mean over its range (nothing outside of it), or calls the user function with the data, its length and its type; an invalid range or an empty callback is refused without losing the present setting. Attached to a '
     'preconditioner it is applied to every solution and every refinement correction - the plain filter to plain solves, the transposed filter to transposed solves - and never to products; several right-hand sides are refused.',
     ['inputs', 'configurations', 'histories'], 'all ranges over vectors up to length 5 in 4 value types; all sequences of 7 setters/copies of depth 4 (6 thorough); all 25 pairs of filter kinds on 3x3 patterns and 20 structure classes; 20 structure classes of the orders 48, 77 and 130 under rotating configurations; a filter without a routine',
     'one test attaches one filter; ranges, switching between kinds and transposed filters are not tested',
     ['src/hif/NspFilter.hpp', 'src/hif/builder.hpp'], [('filter', 'src/hif/NspFilter.hpp:NspFilter::filter'), ('application', 'src/hif/builder.hpp:HIF::solve')],
     EN, 'Exact within the bounds. The type letter passed for complex data is left open (the code says "for now").', ['NspFilter', 'HIF::nsp', 'HIF::nsp_tran'])
prop('P12', 'The exported hierarchy is the preconditioner; reports are true',
     'The levels a preconditioner exports (factors, off-diagonal blocks, scalings, permutations, dense level), put together by the multilevel formula, are the operator that solve inverts and multiply applies. Factors are strictly triangular with sorted '
     'indices, permutations come with their inverses, scalings are positive, and sizes, level count, nonzero counts, ranks and statistics follow from the levels. None of this depends on the logging level.',
     ['inputs', 'configurations'], 'all 3x3 patterns, 4x4 patterns with full diagonal, leading blocks, Hermitian patterns, 20 structure classes up to n=31 x configurations x row/column export x 10 logging levels; 20 structure classes of the orders 48, 77 and 130 under rotating configurations (thorough: and 200); export of the dense level with and without releasing it',
     'no test looks at the exported levels beyond printing sizes, and no test enables detailed logging on unusual matrices',
     ['src/hif/alg/Prec.hpp', 'src/hif/builder.hpp', 'src/hif/ds/CompressedStorage.hpp', 'src/hif/alg/factor.hpp'],
     [('export', 'src/hif/alg/Prec.hpp:Prec::export_sparse_data'), ('reports', 'src/hif/builder.hpp:HIF::nnz,levels,rank,stats')],
     EN, 'Exact over the stated finite spaces, also with dropping (the identity needs no exactness of the factorization); operators above condition 1e8 are skipped and counted.', ['HIF::precs', 'HIF::prec', 'HIF::stats'])
prop('P13', 'Malformed systems and mismatched vectors are refused, cleanly',
     'A system whose starting positions, indices, array lengths or shape are inconsistent, and a right-hand side or solution of the wrong size, are refused with an exception before anything is read or written out of bounds; '
     'the output vector and the object stay as they were (a refused factorization leaves an empty object, usable again). Every well-formed system is accepted.',
     ['inputs', 'histories'], 'all starting arrays over {-1..4}^3 x all index arrays over {-1..3} up to length 3 x value array lengths for 2x2; 1x1 likewise; every single corruption of every 3x3 pattern in both bases; all shapes up to 4x4 with '
     'all leading block sizes; 11 entry points x all pairs of vector sizes 0..12; fresh and used objects, row/column storage, double/single; under a memory checker; one corrupted entry at 24 places of systems of the orders 20 to 130',
     'tests feed one non-square matrix or none; malformed arrays are unbounded in kind, and a missed one is an out-of-bounds access that may go unnoticed',
     ['src/hif/builder.hpp', 'src/hif/ds/CompressedStorage.hpp'],
     [('matrix validation', 'src/hif/builder.hpp:HIF::factorize'), ('validation kernel', 'src/hif/ds/CompressedStorage.hpp:check_validity'), ('size checks', 'src/hif/builder.hpp:HIF::solve')],
     EN, 'Exact within the bounds. Arrays longer than the starting positions say, and systems of order zero, are left open.', ['HIF::factorize', 'HIF::solve', 'HIF::mmultiply', 'HIF::hifir', 'HIF::solve_mrhs'])
prop('P14', 'Index types, storage and interfaces do not change results; mixed precision works',
     'The same system gives bit-for-bit the same preconditioner and results whatever the index and pointer integer types, whether passed as matrix object or as raw arrays, and whether the arrays are foreign-typed (converted) or not. '
     'A single-precision preconditioner built from a double-precision matrix equals the one built from the rounded matrix, serves double-precision vectors to single-precision accuracy, and refinement with a double-precision matrix and vectors '
     'reaches double-precision residuals (real and complex).',
     ['inputs', 'configurations', 'programs'], 'all 3x3 patterns x 2 tables x configurations (with and without dropping, forced hierarchies), Hermitian patterns in symmetric mode, leading blocks of every size, structured matrices to order 8; '
     '8 applications each; every index/pointer type of the object (int/ptrdiff_t, int/int, long/long) with every one of the source, zero- and one-based, as object and as raw arrays; float on double, complex<float> on complex<double>, with HIF_HIGH_PRECISION_SOLVE too; 20 structure classes of the orders 48 and 77 (thorough: and 130) with every type',
     'tests instantiate double/int only and accept loose tolerances; silent truncation to the lower precision or to a narrower integer leaves plausible results',
     ['src/hif/builder.hpp', 'src/hif/alg/IterRefine.hpp', 'src/hif/alg/prec_solve.hpp'],
     [('foreign arrays', 'src/hif/builder.hpp:HIF::factorize'), ('refinement', 'src/hif/alg/IterRefine.hpp:IterRefine::iter_refine'), ('mixed vectors', 'src/hif/alg/prec_solve.hpp:prec_solve')],
     EN, 'Exact within the bounds; ill-conditioned preconditioners are skipped in the precision comparisons (reported). A real preconditioner on complex vectors is not supported by the interface.', ['HIF::factorize', 'HIF::solve', 'HIF::hifir', 'HIF::mmultiply'])
prop('P15', 'Sparse matrix operations neither lose, duplicate nor move entries',
     'Converting between row and column storage, splitting at a column or row, extracting and permuting leading blocks, permuting, scaling, pruning, assembling from triplets, copying, exporting and wrapping compressed '
     'matrices yield exactly the matrix their definition names: every stored entry (explicit zeros included) appears once at its place with its value, indices stay sorted, and the source is unchanged. Pruning removes only '
     'entries whose scaled magnitude is at most the threshold. Wrapping user arrays with checking refuses exactly the ill-formed ones.',
     ['inputs'], 'all patterns of all shapes up to 4x4 with at most 9 (12 thorough) cells, with and without stored zeros, all split positions, all leading blocks, all permutation pairs up to 3x3, all ordered triplet lists up to 6 entries, '
     'all starting/index arrays of shapes up to 3x3 for wrapping, zero- and one-based; 8 shapes up to 130 rows or columns x 8 structures',
     'the tests use a few random square matrices; rectangular, empty, one-based, zero-row and fully-dropped cases decide most of the code paths',
     ['src/hif/ds/CompressedStorage.hpp', 'src/hif/utils/common.hpp'],
     [('conversion', 'src/hif/ds/CompressedStorage.hpp:convert_storage'), ('splits', 'src/hif/ds/CompressedStorage.hpp:split'), ('pruning', 'src/hif/ds/CompressedStorage.hpp:CRS::prune'), ('wrapping', 'src/hif/ds/CompressedStorage.hpp:wrap_crs')],
     EN, 'Exact over the stated spaces; entries whose scaled magnitude equals the pruning threshold up to rounding are skipped and counted.', ['CRS', 'CCS', 'wrap_crs', 'wrap_ccs'])
prop('P16', 'Every sparse kernel computes its dense formula',
     'Matrix-vector and transposed (conjugate-transposed) products, products over row ranges and with several right-hand sides, and the triangular and diagonal solves with the computed factors, give the result of the dense formula for every '
     'shape (also without rows, columns or entries), storage, index type and mixture of matrix and vector value types; they write their result range and nothing else, and refuse vectors of other sizes.',
     ['inputs'], 'all patterns of all shapes up to 4x4 with at most 9 (12 thorough) cells x 8 type mixtures x 1-3 right-hand sides x all row ranges; all strictly triangular patterns up to order 4 (5 thorough) with right-hand sides of every zero pattern; all pairs of triangular patterns up to order 3 (4 thorough); 11 shapes up to 260 rows or columns x 8 structures, triangles and factors up to order 257',
     'the tests multiply a few random square matrices of one type; empty rows/shapes, several right-hand sides, transposition in complex arithmetic and mixed types are separate code paths',
     ['src/hif/ds/CompressedStorage.hpp', 'src/hif/alg/prec_solve.hpp', 'src/hif/utils/mv_helper.hpp'],
     [('products', 'src/hif/ds/CompressedStorage.hpp:CRS::multiply'), ('multiple right-hand sides', 'src/hif/ds/CompressedStorage.hpp:multiply_mrhs_nt'), ('triangular solves', 'src/hif/ds/CompressedStorage.hpp:solve_as_strict_lower')],
     EN, 'Sums are exact by choice of the values (table 0) or compared within the rounding bound of the result type (table 1). Mixed single-complex/double-complex arithmetic rounds to the left operand as documented and is held to single precision. Solves of order 0 are not enumerated.', ['CRS::multiply', 'CCS::multiply', 'prec_solve'])
prop('P17', 'Augmented storage keeps its lists consistent with its entries',
     'An augmented matrix (rows with linked lists down the columns, or columns with lists along the rows) built from any matrix, in either storage order, shared, cloned or moved, or assembled line by line, always stores sorted lines, and every list visits exactly the entries '
     'of its column (row) in order with their values, counts and tails, through any sequence of assembling, interchanging and deferring columns (rows). Clones are independent.',
     ['inputs', 'histories'], 'all patterns up to 4x3/3x4 with all programs of 2-3 interchanges and deferrals (depth 3-6, up to 4x4 thorough); all programs of 4 of 25 assembly operations on 3 lists and 3 of 45 on 4 lists (5 and 4 thorough), both orientations; rows and columns longer than any growth step',
     'the factorization reaches only some of these sequences, and one broken link shows up only as a slightly different factor',
     ['src/hif/ds/AugmentedStorage.hpp', 'src/hif/ds/CompressedStorage.hpp'],
     [('interchanging', 'src/hif/ds/AugmentedStorage.hpp:AugCRS::interchange_cols'), ('deferring', 'src/hif/ds/AugmentedStorage.hpp:AugCCS::defer_row'), ('building', 'src/hif/ds/AugmentedStorage.hpp:AugCRS::build_aug')],
     'explicit-state exploration of all operation sequences on the real code against a dense model', 'Exact within the bounds. Deferral targets lie beyond all existing entries, as its documentation asks.', ['AugCRS', 'AugCCS'])
prop('P18', 'Containers keep their values, sizes and sharing through every program',
     'Arrays, dense matrices, sparse vectors and permutations behave as their documentation says through any sequence of construction, copying (shallow), cloning, moving, swapping, wrapping, resizing, appending, writing, stealing and conversion: '
     'elements keep their values, copies share and clones do not, wrapped data is written through and never freed, moved objects are empty and usable, nothing leaks or is freed twice; a permutation and its inverse stay inverse to each other; '
     'sparse vectors hold exactly the indices pushed and not deleted.',
     ['histories'], 'all programs of 3 (4 thorough) of 66 operations on two arrays, 3 of 117 on three arrays, 4 of 36 on two dense matrices, 6 of 14 on a sparse vector of length 3, 3 of up to 36 on every permutation of order 1..4; under a memory checker, allocations counted; sparse vectors with hundreds of entries',
     'tests run a handful of fixed sequences; sharing and ownership errors need particular sequences of copies, moves and resizes',
     ['src/hif/ds/Array.hpp', 'src/hif/ds/DenseMatrix.hpp', 'src/hif/ds/SparseVec.hpp', 'src/hif/ds/PermMatrix.hpp'],
     [('shared storage', 'src/hif/ds/Array.hpp:Array::resize'), ('dense matrices', 'src/hif/ds/DenseMatrix.hpp:DenseMatrix::resize'), ('sparse vectors', 'src/hif/ds/SparseVec.hpp:SparseVector::compress_indices'), ('permutations', 'src/hif/ds/PermMatrix.hpp:BiPermMatrix::interchange')],
     'explicit-state exploration of all operation sequences on the real code against a reference model', 'Exact within the bounds. Whether a resize keeps sharing follows the reported capacity. Marking an entry deleted and resetting the counter without compressing is misuse.', ['Array', 'DenseMatrix', 'SparseVector', 'BiPermMatrix'])
prop('P19', 'Matching and scaling are optimal, and exactly the negligible pivots are deferred',
     'For every matrix, the preprocessing of a level yields row and column permutations and positive finite scaling factors without changing the matrix. On structurally regular leading blocks the matched entries have the largest possible product, are scaled to one, and no entry of the block is scaled above one '
     '(weights balanced within the requested factor on later levels); otherwise as many nonzero entries as possible are matched. Exactly the pairs whose entry is negligible in its row and column leave the leading block. Symmetric preprocessing treats rows and columns alike; nothing beyond the leading block is touched.',
     ['inputs', 'configurations'], 'order 2 over 10 values and all patterns of order 3 with 192 settings each (pre-scaling, level, symmetry, leading block, reordering, safeguard), order 3 over 3-5 values, all patterns of order 4 (5 thorough) with different magnitudes, all full matrices of order 4 over 2 values, all symmetric patterns up to order 5, structured and circulant ones up to order 9; real, complex and single precision; orders up to 77 (thorough: 130) against the Hungarian method',
     'a wrong matching still gives a valid preconditioner, only a worse one; the tests do not compare it with the optimum',
     ['src/hif/pre/matching_scaling.hpp', 'src/hif/pre/equilibrate.hpp', 'src/hif/pre/EqlDriver.hpp', 'src/hif/pre/a_priori_scaling.hpp', 'src/hif/pre/driver.hpp'],
     [('matching', 'src/hif/pre/equilibrate.hpp:kernel'), ('scaling', 'src/hif/pre/EqlDriver.hpp:EqlDriver::do_matching'), ('static deferral', 'src/hif/pre/matching_scaling.hpp:defer_tiny_diags'), ('level driver', 'src/hif/pre/driver.hpp:do_preprocessing')],
     EN, 'The best assignment and the largest matching come from dynamic programming over all sets of columns. On structurally singular blocks the scaling factors only have to be positive and finite; values stay within the range of the type after scaling.', ['do_preprocessing'])
prop('P20', 'Reorderings are permutations with little fill or small bandwidth',
     'For every pattern, stored in any of the accepted ways, the minimum degree ordering is a permutation, reproducible, leaves its input alone, produces no fill on forests and on small graphs never more than some minimum (external) degree elimination, and the reported bound on the factor holds; nodes without neighbours do not change how the others are ordered. '
     'The reverse Cuthill-McKee ordering is a permutation that keeps components together, each a reversed breadth-first numbering with neighbours by degree from a peripheral root (an end of the diameter on trees).',
     ['inputs'], 'all labelled graphs up to 6 nodes (7 thorough: 2.1 million) x 4 ways to store them x 3 pairs of index types; all square patterns up to order 4 in three storage orders; 14 kinds of graphs of every size up to 130 (200) in three labellings; banded graphs of 40 (120) sizes; all subgraphs of a grid of 11 nodes (12 thorough), where the workspace is compacted',
     'the tests run the orderings on a few random matrices, where a lost node or a bad pivot choice goes unnoticed or shows only as slightly larger factors',
     ['src/hif/pre/amd.hpp', 'src/hif/pre/rcm.hpp', 'src/hif/pre/reordering.hpp'],
     [('minimum degree', 'src/hif/pre/reordering.hpp:run_amd'), ('quotient graph', 'src/hif/pre/amd.hpp:AMD::two'), ('Cuthill-McKee', 'src/hif/pre/rcm.hpp:genrcm_')],
     EN, 'The envelope of minimum external degree eliminations is computed for every graph by dynamic programming over the eliminated sets. For graphs of more than 7 nodes only forests have a bound on the fill.', ['run_amd', 'run_rcm'])
prop('P21', 'The dense solvers determine ranks correctly and solve in the truncated sense',
     'The rank-revealing QR of a square matrix reports its rank (judged by the condition threshold), chooses columns greedily, and for every rank argument its solution is the least-squares solution over the chosen columns, its product '
     'the chosen columns, with adjoint transposed variants. LU solves and multiplies any nonsingular matrix and its adjoint. The eigendecomposition keeps the eigenvalues the definiteness flag asks for, largest first, and solves and multiplies '
     'with them. All: several right-hand sides, vectors of another type and refactorization agree with the plain calls; misuse is refused.',
     ['inputs', 'configurations'], 'all 2x2 matrices over 5-6 values, all 3x3 over 3 values, all 4x4 patterns, 2x2/3x3 graded matrices x 4 thresholds, all permuted graded 4x4 diagonals, 20 structure classes to order 40, all Hermitian patterns to 4x4 x 3 '
     'definiteness flags; every rank argument 1..n; double, complex, single, single complex; both condition estimators; four ways of passing the matrix; dense systems of order 70 (thorough: 101)',
     'tests try random full-rank matrices; rank decisions, truncation, the conjugate transposes and thresholds matter for singular and graded matrices only',
     ['src/hif/small_scale/QRCP.hpp', 'src/hif/small_scale/LUP.hpp', 'src/hif/small_scale/SYEIG.hpp', 'src/hif/small_scale/lapack.hpp'],
     [('rank-revealing QR', 'src/hif/small_scale/QRCP.hpp:QRCP::factorize'), ('LU', 'src/hif/small_scale/LUP.hpp:LUP::solve'), ('eigendecomposition', 'src/hif/small_scale/SYEIG.hpp:SYEIG::factorize')],
     EN, 'Square matrices. Rank arguments that cut a cluster of eigenvalues, eigenvalues at the threshold and ill-conditioned pivot blocks are skipped (reported). Thresholds: decided up to the quality of the estimator (factor 10n), exactly for diagonals.',
     ['QRCP::solve', 'QRCP::rank', 'LUP::solve', 'SYEIG::solve', 'SYEIG::rank'])
prop('P22', 'MatrixMarket files carry matrices and vectors exactly',
     'A matrix or vector written to a MatrixMarket file and read back, by rows or by columns and with any index type, is bitwise the same; files of other writers in any admissible layout and storage scheme (general, symmetric, Hermitian, '
     'skew-symmetric) are read as the matrix they denote. A file that could not be written completely is reported, and no file stays open.',
     ['inputs', 'fault_sequences'], 'all patterns of all shapes up to 4x4 with at most 8 (9 thorough) cells with extreme values (denormal, largest, signed zeros) x 4 value types x 3 index types x 2 storages; vectors of length 0-15; 4 schemes x all small patterns x 16 layouts; '
     'writes that fail after k bytes for every k; matrices up to 200 rows or columns, vectors up to 5000 entries, files of other writers of the orders 30 and 70',
     'the tests read one file and compare it with another; short writes, extreme values, symmetric schemes and unusual layouts are not tested',
     ['src/hif/utils/io.hpp'], [('reading', 'src/hif/utils/io.hpp:read_mm_sparse'), ('writing', 'src/hif/utils/io.hpp:write_mm_sparse')],
     EN + ' with fault injection at every byte', 'Exact within the bounds. Write failures are injected by a file size limit (RLIMIT_FSIZE) at every byte count.', ['from_mm', 'write_mm'])
prop('P23', 'Damaged MatrixMarket files are refused without harm',
     'A MatrixMarket file that is truncated, has unreadable or inconsistent sizes, entries outside of the matrix, or an unknown header is refused with an exception: nothing is read or written out of bounds, nothing is returned, and the file is closed. '
     'Valid files are accepted, and whatever is accepted is a well-formed matrix.',
     ['inputs', 'fault_sequences'], 'six base files: every prefix, every byte replaced by or preceded by each of 12 bytes, every run of up to 8 bytes deleted, every token and every pair of tokens replaced from a list of 21 (9 for pairs in quick); read as real/complex, by rows/columns, as matrix/vector, under a memory checker; damaged files of large matrices',
     'the number of ways to damage a file is unbounded; tests read intact files only',
     ['src/hif/utils/io.hpp'], [('header', 'src/hif/utils/io.hpp:query_mm_sparse'), ('entries', 'src/hif/utils/io.hpp:read_mm_sparse')],
     EN + ' with all single and double corruptions', 'A strict reference reader decides; where a lenient reader may differ (several tokens scanned from one, repeated entries, trailing text, comments elsewhere) only memory safety, closing and well-formedness are demanded. Sizes that only exhaust memory are not enumerated.', ['from_mm'])
prop('P24', 'The C interface does what the C++ object does and reports every error',
     'Through every sequence of calls, each function of libhifir returns its documented status, leaves all handles as they were when it refuses, lets no exception escape, sets the error message, and otherwise has exactly the effect of the '
     'corresponding C++ operation (bitwise results, statistics, sizes), for the four value types and both mixed-precision variants; every parameter reaches the option it names.',
     ['inputs', 'histories', 'fault_sequences'], 'all sequences of 23 setup/update/refactorize calls (depth 2 quick, 3 thorough) after 5 kinds of creation; 20 structure classes x sizes x 40 parameter variations x value types x all operations, counts, bounds and ranks; all small MatrixMarket files; '
     'handles with every combination of missing arguments; failed allocation in creation; systems of larger order applied in every mode',
     'libhifir has no tests at all', ['libhifir/src/libhifir.cpp', 'libhifir/include/libhifir.h'],
     [('parameters', 'libhifir/src/libhifir.cpp:create_params'), ('setup', 'libhifir/src/libhifir.cpp:lhf?Setup'), ('apply', 'libhifir/src/libhifir.cpp:lhf?Apply')],
     EN + ' of call sequences against a reference model', 'Exact within the bounds. The matrix a failed setup leaves for refinement is left open. lhfEnableWarning/lhfDisableWarning are declared but not defined and cannot be called.', ['lhf*'])
prop('P26', 'Options have one name, one place and one text',
     'Every option has its documented default, from C and from C++. Setting any option by name, as an integer or as a floating-point number, changes that option to that value and nothing else, in any order; every other name is refused without effect. Reading the options from a stream fills all of them in the order of their declaration, stops at the first '
     'unreadable number and leaves what follows. The text of the options shows the value of each of them once; verbosity flags are switched on and off exactly.',
     ['inputs', 'programs'], 'all 28 names x 10 values x 2 types followed by every second name; all names at edit distance one (27,000); every option x value x separator x all points where a stream ends or is damaged; all option texts, all 512 verbosity masks, all flags switched on from all masks',
     'the tests set eleven names once and never read a stream or a text',
     ['src/hif/Options.h'], [('names', 'src/hif/Options.h:hif::set_option_attr'), ('stream', 'src/hif/Options.h:operator>>'), ('text', 'src/hif/Options.h:hif::opt_repr'), ('flags', 'src/hif/Options.h:hif_enable_verbose')],
     'exhaustive enumeration of names, values, pairs of settings and stream prefixes on the real code against a table of the fields', 'Real values in the text are compared to six decimals, as they are printed. The deprecated option mumps_blr has no text.', ['Params', 'set_option_attr'])
prop('P27', 'Threads change nothing: same bits, no races, any schedule',
     'Parallel regions (Schur complements, dropping of the offsets, matrix-vector products, and factorizations, solutions and refinements made of them) give bitwise what one thread gives, for every requested number of threads, every number '
     'of threads the runtime grants (also fewer than requested, as in nested regions or under a thread limit) and every schedule, and contain no data race. Work is divided completely, disjointly and evenly, and the number of threads is the '
     'one given, or that of the environment.',
     ['schedules', 'inputs', 'configurations'], 'requested threads 1-7 x granted 1-7 x orders of the threads in each phase (all for up to 3, some for more) x 60 Schur structures, 112 dropping cases, products of all kernels (all schedules with one preemption on small ones, two in thorough), '
     '3 factorization kernels; all partitions up to 120 (400) rows and 24 threads; all sequences of 3 settings x 49 environments',
     'the tests run whatever schedule the machine gives on matrices too small for the parallel code to be entered at all',
     ['src/hif/alg/Schur.hpp', 'src/hif/utils/mt.hpp', 'src/hif/utils/mt_mv.hpp'],
     [('Schur complement', 'src/hif/alg/Schur.hpp:mt::compute_Schur_simple'), ('dropping', 'src/hif/alg/Schur.hpp:mt::drop_L_E_and_U_F'), ('products', 'src/hif/utils/mt_mv.hpp:multiply_nt'), ('partition', 'src/hif/utils/mt.hpp:uniform_partition')],
     'stateless model checking of the real code under a controlled scheduler, with a happens-before monitor',
     'The code runs on a substitute OpenMP runtime that executes one thread at a time. Every execution is checked for conflicting unordered accesses (vector clocks on every instrumented access): an execution without any represents all its interleavings, so the enumeration '
     'is complete per input. Inputs are structures just above the size thresholds of the parallel code. LAPACK is not instrumented.', ['HIF::factorize with threads', 'mt::*'])
prop('P28', 'Objects in different threads do not interfere',
     'Independent preconditioners factorized and used in concurrent threads - of any value types and configurations, also from one shared input matrix - give each thread bitwise what it gets alone, without data races.',
     ['schedules', 'configurations'], 'two threads: all pairs of 9 configurations x 5 matrices x 3 value types x own/shared matrix x both orders; three threads of mixed types x all orders; all schedules with one preemption for small systems',
     'no test uses threads; global state (thread counts, banners, static buffers) makes objects interfere only under some schedules',
     ['src/hif/builder.hpp', 'src/hif/utils/mt.hpp', 'src/hif/ds/Array.hpp', 'src/hif/alg/IterRefine.hpp'],
     [('global settings', 'src/hif/utils/mt.hpp:get_nthreads'), ('factorization', 'src/hif/builder.hpp:HIF::factorize')],
     'stateless model checking of the real code under a controlled scheduler, with a happens-before monitor',
     'As P27: threads are serialized by the controlled scheduler, races are decided by vector clocks on every instrumented access of each execution. Parallel regions inside of user threads are granted one thread.', ['HIF'])

prop('P29', 'Running out of memory is reported and harms nothing',
     'Whichever requests for memory fail - a single one, two, or all from some point on - every operation either delivers its result as usual or reports an error (an exception; in C a status with a message, or a null handle): no crash, no '
     'memory or file left open, no input changed. A preconditioner whose factorization failed is empty and refuses to solve, growing arrays keep their entries, and the same objects give the usual results once memory is available again.',
     ['fault_sequences', 'programs', 'inputs'], 'every request of every operation, alone, with every one later request of the same operation, and with all later ones: 12 operations of the preconditioner object on 20 structure classes of 2 (complex) to 3 sizes (4 '
     'sizes x 12 times the configurations thorough) in general and symmetric mode, foreign value and index types, one-based matrices; 34 operations of containers, conversions, orderings, files and dense solvers; 12 calls of the C interface (real and complex)',
     'the tests never run out of memory; there are hundreds of requests in a factorization, and each unchecked one is a crash, a leak, or an object left half-built',
     ['src/hif/ds/Array.hpp', 'src/hif/builder.hpp', 'libhifir/src/libhifir.cpp', 'src/hif/ds/DenseMatrix.hpp', 'src/hif/pre/reordering.hpp', 'src/hif/utils/io.hpp'],
     [('allocation of arrays', 'src/hif/ds/Array.hpp:Array::resize'), ('failed factorization', 'src/hif/builder.hpp:HIF::factorize'), ('minimum degree workspace', 'src/hif/pre/amd.hpp:AMD_malloc'), ('error translation', 'libhifir/src/libhifir.cpp:lhfdSetup')],
     'stateless model checking of the real code with an exhaustive fault injector (every allocation point of every history)',
     'Requests through operator new and the library\'s own malloc calls are injected; those inside of the C library, LAPACK and the exception runtime are not. Programs are fixed sequences; every fault is followed by the rest of the program.', ['HIF', 'Array', 'libhifir'])
prop('P30', 'Messages and debugging checks change nothing, and what is said is true',
     'Whatever verbosity is asked for, the hierarchy, the reports, every solve, product and refinement, and whether an error is raised, are bit for bit those of a muted run; the same holds with the debugging checks (HIF_DEBUG) compiled in, none of which fires on valid input. A muted run prints '
     'nothing, warnings and progress information appear only if asked for, nothing bypasses the redirectable output macros, and the numbers in the messages (levels, block sizes, deferrals, droppings for space, nonzeros) are those of the object.',
     ['configurations', 'inputs'], 'every one of the 128 subsets of the verbosity flags, and the debugging mode, for 20 structure classes of the orders 4 to 18 (33 thorough) under rotating configurations, storages, index bases, value types and modes, leading blocks of every size, and (with 10 of the subsets) the orders 48, 77 and 130',
     'the tests run with one verbosity; statements within a message branch that change state show only if the message is on (or off), and debugging checks are not compiled in',
     ['src/hif/builder.hpp', 'src/hif/alg/factor.hpp', 'src/hif/alg/pivot_factor.hpp', 'src/hif/alg/symm_factor.hpp', 'src/hif/pre/driver.hpp', 'src/hif/utils/log.hpp', 'src/hif/Options.h'],
     [('level messages', 'src/hif/alg/factor.hpp:level_factorize'), ('message macros', 'src/hif/utils/log.hpp'), ('summary', 'src/hif/builder.hpp:HIF::factorize')],
     EN, 'Exact within the bounds. Texts are not prescribed; numbers are compared where the text carries them.', ['HIF::factorize', 'hif_info', 'HIF_DEBUG'])
