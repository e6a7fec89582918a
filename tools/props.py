ANY = 'every reachable operand, implementation and size; every call'
prop('C01', 'Operations that compute a result change none of their inputs',
 'An operation that returns a result, a norm, a decomposition or a solution (anything but the documented mutators: entry, row, column and sub-matrix setters, changing walks, in-place vector operations) leaves the receiver and every matrix, vector and slice passed to it exactly as they were. A mutator changes its receiver only (CopySubMatrix* its destination), never another argument.',
 ['inputs', 'histories'], ANY, 'The tests look at results and hardly ever look at the operands again; whether some branch for some operand type writes an operand is a statement about every code path.',
 M + V + D, [('all arithmetic allocates its result', 'every *_real_matrix.go, array_real_vector.go'), ('decompositions work on matrix.Data() or Copy()', 'New*Decomposition*')],
 technique='interprocedural effect (mod/ref) and points-to analysis over SSA',
 note='Sound for the package itself up to reflection/unsafe (not used): may-write sets over-approximate every path. Trusts the effect model of the standard library calls used (math, fmt, strconv, errors) and leaves user-written visitors and functions to their authors.')
prop('C02', 'Results and copies own their memory',
 'The matrix, vector or slice an operation, copy, getter or constructor returns shares no storage with its receiver or arguments, and a setter, decomposition or solver keeps no reference to what it was given: a later change on one side is never visible on the other. Exceptions are the operations that say so: the *Ref accessors, constructors told not to copy, NewBlockRealMatrixFromBlockData, cursors and solvers over their receiver, and the memoised factors of a decomposition, which are the same object on every call.',
 ['inputs', 'histories'], ANY, 'Aliasing shows only when one side is changed later; tests compare values right after the call.',
 M + V + D, [('results built in fresh storage', 'every operation'), ('copyIn / append([]float64{}, ...) on entry', 'constructors')],
 technique='interprocedural points-to (heap reachability) analysis over SSA',
 note='Sound may-alias analysis of the package; specialised on the copyArray switch of constructors. Same trust as C01.')
prop('C12', 'Every operation accepts any implementation of the operand interfaces',
 'Operations taking a matrix or vector interface work for every implementation of it, including ones from outside the package: no operation panics because the operand is not the implementation it is optimised for, and what it computes is what its definition says whichever implementation the operand is.',
 ['inputs'], 'every implementation of RealMatrix and RealVector as operand of every operation', 'The tests use a few combinations of the built-in implementations and one test double.',
 M + V, [('comma-ok type assertions select a fast path, a generic path remains', 'every binary operation')],
 technique='dominator analysis of type assertions over SSA with dynamic-type propagation; gated value-flow and array-section analysis of the operations for every implementation of the operand',
 note='Decides that no assertion can fail unguarded and that the value of a failed assertion is never dereferenced; the result of each operation with an interface operand is derived for every implementation of it, an arbitrary one included, and compared with its definition.')
prop('C18', 'A decomposition is fixed once constructed',
 'After construction, no sequence of accessor and solver calls, in any order and repeated any number of times, changes what any later call on the decomposition, transformer or solver observes; factors are computed at most once, and later changes of the input matrix have no effect.',
 ['histories'], 'every sequence of calls on every decomposition, transformer and solver', 'Tests call each accessor once or twice in one order.',
 D, [('lazily computed factors guarded by a nil test', 'L, U, P, Q, QT, R, H, V, D, VT, S, UT, B, T, PT accessors'), ('constructors copy their input', 'New*')],
 technique='effect analysis with memo-guard (nil-guarded write) tracking over SSA; points-to for retained inputs',
 note='Sound for writes to receiver-reachable state of the package\'s own code. The numerical value of the factors is not covered.')
prop('C24', 'Results depend on the arguments only',
 'No operation keeps state in package-level variables or depends on randomness, time, the environment, goroutine scheduling or map iteration order: the same call on equal operands always gives the same result, and read-only operations on shared operands can run concurrently.',
 ['schedules', 'histories'], 'every call history and interleaving of read-only operations', 'Tests run sequentially and once.',
 M + V + D + ['utils.go', 'error.go'], [('no package-level variables are written', 'whole package'), ('accumulators live in per-call visitors', 'real_matrix.go norms')],
 technique='interprocedural global-state and nondeterminism effect analysis over SSA',
 note='Sound for package-level state and the listed nondeterminism sources; decompositions memoise lazily and are not claimed safe for concurrent use.')
VF = 'gated value-flow and array-section dataflow analysis of the type-checked source against overlay specifications'
VFN = 'Over-approximating for what it summarises; float arithmetic is compared as real arithmetic. Obligations the algebra cannot unify are compared by identity testing of the two closed forms (reported as agreed, not proved); constructs it cannot summarise are reported undecided and raise no alarm.'
prop('C07', 'Walks visit each selected entry once, in order, and store results back',
 'Every walk of a matrix or vector (row, column, default and optimized order, whole or bounded, reading or updating) on every implementation calls Start exactly once with the dimensions and the inclusive bounds of the walk, then Visit exactly once for each selected index (and no other) with the value held there, then End exactly once, whose value the walk returns. Row order is row by row and left to right, column order column by column and downwards, the default vector order ascending. Updating walks store exactly what Visit returned at that index; entries outside the bounds keep their value.',
 ['inputs'], 'every implementation, every size (across block boundaries) and every valid bound, every visitor', 'The tests walk a few fixed sizes with visitors that compute sums.',
 M + V + ['real_matrix_visitor.go', 'real_vector_visitor.go'], [('WalkIn* methods and functions', 'array_2d_row_real_matrix.go, block_real_matrix.go, diagonal_matrix.go, array_real_vector.go, real_matrix.go, real_vector.go')],
 technique=VF, note=VFN)
prop('C08', 'Entry access reads and changes exactly the addressed entry',
 'For valid indices At returns the value stored at that position, SetEntry stores exactly the given value, AddToEntry the sum and MultiplyEntry the product with the old value, and no other entry changes, on every implementation and size. A diagonal matrix reads 0 off its diagonal and rejects non-zero off-diagonal writes.',
 ['inputs'], 'every implementation, size, valid index and value', 'Block addressing depends on the position relative to the 52-wide blocks; tests use few sizes.',
 M + V, [('block index arithmetic', 'block_real_matrix.go'), ('ensureZero', 'diagonal_matrix.go')], technique=VF, note=VFN)
prop('C09', 'Row, column and sub-matrix access moves exactly the addressed entries',
 'For valid arguments RowAt, ColumnAt, Row/ColumnVectorAt, Row/ColumnMatrixAt, SubMatrix (by bounds and by indices), CopySubMatrix, SubVector and Data return exactly the addressed entries, in order and with the right shape; SetRow, SetColumn, SetRow/ColumnVector, SetRow/ColumnMatrix, SetSubMatrix and SetSubVector store exactly the given values at the addressed positions and leave every other entry alone. This holds for every implementation of receiver and operand.',
 ['inputs'], 'every implementation, size, valid position and operand implementation', 'The tests cover a handful of positions; a block matrix moves entries across block boundaries piecewise.',
 M + V, [('blockwise copies', 'block_real_matrix.go'), ('row copies', 'array_2d_row_real_matrix.go'), ('free functions', 'real_matrix.go')], technique=VF, note=VFN)
prop('C10', 'Elementwise arithmetic is what its definition says, entry by entry',
 'Add, Subtract, ScalarAdd, ScalarMultiply, Transpose and Copy of matrices and Add, Subtract, EBEMultiply, EBEDivide, Map*, Combine*, Set and Unitize of vectors produce at every index exactly the defined combination of the operands\' entries at that index (for Transpose the mirrored index), infinite and NaN entries included, for every pair of implementations and every compatible size, including sizes beyond one block.',
 ['inputs'], 'every pair of implementations, every size and entry', 'The tests compare a few small fixed matrices; wrong entries in one block or one implementation pair stay unseen.',
 M + V, [('per-type fast paths and generic paths', 'Add, Subtract, ... in every implementation')], technique=VF, note=VFN)

prop('C03', 'Out-of-range indices are rejected before anything happens',
 'Every operation that takes a row, column or element index, a range or a list of indices panics with a library error (never a Go runtime fault, never a silent wrong answer) when an index is negative or past the end, a range is reversed, or an index list is empty or nil, on every implementation (and the eigenvalue and eigenvector accessors); in that case the receiver, the arguments and any destination are left exactly as they were.',
 ['inputs', 'histories'], 'every implementation, size, and invalid index, range or index list', 'Tests try -1 and one past the end on one small size; a block matrix pads its last blocks, so an unchecked index can read or write silently.',
 M + V + ['utils.go'], [('checkRowIndex, checkColumnIndex, checkSubMatrixIndex, checkMatrixIndex', 'utils.go, every matrix implementation'), ('checkIndex, checkIndices', 'array_real_vector.go')],
 technique=VF, note=VFN)
prop('C11', 'Products are the sums that define them',
 'Multiply and PreMultiply give at (i,j) the sum over k of the products of the operands\' entries, Operate and PreOperate (vector and slice forms) the sums of row or column entries times vector entries, dot product, outer product and trace their defining sums, infinite and NaN entries taking part in them (the zeros a diagonal matrix does not store excepted); Power 0 is the identity and Power 1 a copy. This holds for every combination of implementations and every compatible shape, including inner dimensions beyond one block.',
 ['inputs'], 'every combination of implementations, every compatible shape', 'Tests use a few fixed shapes per pair; blockwise products accumulate over blocks of different widths.',
 M + V, [('Multiply, PreMultiply*, Operate*, PreOperate*', 'every matrix implementation'), ('VecDotProduct, OuterProduct', 'array_real_vector.go, real_vector.go')], technique=VF, note=VFN)

prop('C04', 'Dimension mismatches are rejected before anything happens',
 'Every operation that combines two operands, or an operand and a slice (sum, difference, product, operate, entrywise vector operations, combine, distances, row, column and sub-matrix setters, sub-matrix copies, trace, power), panics with a library error when the dimensions do not fit, on every combination of implementations; never a Go runtime fault and never a silently truncated result. The receiver, the arguments and any destination are then exactly as they were.',
 ['inputs'], 'every combination of implementations and every pair of incompatible shapes', 'Tests try one mismatched pair per operation; a fast path without the check, or one that checks after the first write, stays unseen.',
 M + V + ['utils.go'], [('checkAdditionCompatible, checkSubtractionCompatible, checkMultiplicationCompatible', 'utils.go, every matrix implementation'), ('checkVectorDimensions', 'array_real_vector.go, real_vector.go')],
 technique=VF, note=VFN)
prop('C19', 'Norms, distances and extremes equal their definitions',
 'For every vector (any implementation) VecNorm, VecL1Norm, VecLInfNorm, VecDistance, VecL1Distance, VecLInfDistance and VecCosine are the square root of the sum of squares, sum of absolute values, largest absolute value (of the entries or the entrywise differences) and dot product over the product of the norms; Projection and UnitVector are the scaled vectors of their definition (zero vectors rejected); MinIndex, MaxIndex give a position that holds the smallest or largest entry (of a vector without NaN), -1 for an empty vector, and MinValue, MaxValue that entry, NaN for an empty vector. MatFrobeniusNorm is the square root of the sum of squares and MatLInfNorm the largest absolute column sum.',
 ['inputs'], 'every implementation and every size', 'The tests evaluate a few fixed vectors and matrices, with the extreme entry in one position.',
 ['real_vector.go', 'real_matrix.go', 'array_real_vector.go', 'real_matrix_visitor.go'], [('norm and distance functions', 'real_vector.go'), ('norm visitors', 'real_matrix.go')],
 technique=VF, note=VFN)
prop('C22', 'Constructors build what they are given and reject invalid arguments',
 'Every matrix and vector constructor returns an object of the requested shape holding exactly the given entries (zero, the preset value, the diagonal, the given rows, the column, or the concatenation), sharing the given slice when told not to copy and only then; invalid arguments (a matrix dimension below 1, a negative vector size, a nil operand, empty or ragged row data, blocks of the wrong number or size) are reported as an error, never by a panic, and without an object.',
 ['inputs'], 'every constructor, shape, content and invalid argument', 'The tests construct a few small objects and one or two invalid ones.',
 M + V, [('New*RealMatrix*, NewIdentity*, NewDiagonal*, NewBlock*, BlocksLayout helpers', 'array_2d_row_real_matrix.go, block_real_matrix.go, diagonal_matrix.go, real_matrix.go'), ('New*RealVector*', 'array_real_vector.go')],
 technique=VF, note=VFN)
prop('C23', 'Decomposition constructors never end in a fault of the Go runtime',
 'Building an LU, Cholesky, rectangular Cholesky, QR, rank-revealing QR, singular value, eigen (of a matrix or of given diagonals) decomposition, or a bidiagonal, tridiagonal, Hessenberg or Schur transformer, from a matrix of any implementation and any shape (square or not, wide or tall, one row, one column, larger than one block) with finite entries ends with an object or with an error of the library: no index or slice out of range, nil dereference, negative allocation or integer division by zero on any path of the construction, whatever the entries are.',
 ['inputs'], 'every decomposition constructor, every implementation, every shape, every entry', 'Tests decompose a handful of small matrices; an index that leaves an array only for a wide, one-row or rank-deficient matrix is not met by them.',
 D, [('loops over the working arrays', 'New*Decomposition*, New*Transformer and what they call')], technique=VF, note=VFN)
prop('C25', 'Equality, NaN/infinity and singularity queries tell the truth',
 'Equals is true exactly when the shapes agree and every entry is equal (an infinite entry to itself, NaN to nothing), for every pair of implementations (a matrix without NaN equals itself and its copy); IsNaN of a vector is true exactly when some entry is NaN, IsInf when some entry is infinite and none is NaN; a matrix is square exactly when its dimensions agree; a diagonal matrix is singular exactly when some diagonal entry is within the threshold of zero, and its inverse has the reciprocal diagonal entries and is refused when singular.',
 ['inputs'], 'every pair of implementations, every size and position of the deciding entry', 'Tests place the deciding entry in one position of one small size.',
 M + V, [('Equals', 'every implementation'), ('IsSingular, Inverse', 'diagonal_matrix.go'), ('IsNaN, IsInf', 'array_real_vector.go')],
 technique=VF, note=VFN)

prop('C14', 'Constructors of decompositions refuse what they cannot decompose',
 'LU, Cholesky, rectangular Cholesky, eigen, tridiagonal, Hessenberg and Schur constructors given a non-square matrix of any implementation return a nil decomposition and a non-nil error, without panicking; Cholesky also does so for a matrix that is not symmetric within the relative threshold, and the eigen decomposition of a tridiagonal matrix for an empty main diagonal or a secondary diagonal that is too short. In every case exactly one of decomposition and error is non-nil; LU, QR, RRQR, bidiagonal, tridiagonal and Hessenberg constructors never fail on a shape they accept.',
 ['inputs'], 'every implementation, every shape and every entry', 'Tests pass one non-square and one asymmetric example; whether a constructor returns both or neither on some path is about every path.',
 D, [('IsSquare tests and error returns', 'New*Decomposition*, New*Transformer')], technique=VF,
 note=VFN + ' Numeric loops after validation are summarised by their modification set; block-stored inputs above 4096 entries are left out there.')
prop('C15', 'Solvers refuse bad systems and return solutions of the right shape',
 'SolveVector and SolveMatrix of every solver panic with a library error when the right hand side does not have as many rows as the decomposed matrix; those of the LU, QR, RRQR and eigen solvers and their Inverse do so whenever IsNonSingular is false. Otherwise the solution has as many rows as the decomposed matrix has columns and as many columns as the right hand side; the inverse has the transposed shape. The eigen solver returns sum_k (v_k.b / lambda_k) v_k and the matching inverse; the SVD solver applies its Inverse (the pseudo-inverse V S^-1 U^T) and is non-singular exactly when the rank equals the larger dimension; SquareRoot is V sqrt(D) V^T and refuses eigenvalues that are not positive; Solver of a decomposition with complex eigenvalues is refused.',
 ['inputs'], 'every matrix, right hand side, implementation and shape', 'Tests solve a few well conditioned systems; the rejection paths and odd shapes are hardly sampled.',
 D + ['decomposition_solver.go'], [('SolveVector, SolveMatrix, Inverse, IsNonSingular', 'solvers of every decomposition')], technique=VF,
 note=VFN + ' That LU, Cholesky and QR solutions satisfy the system is numerical and not claimed.')
prop('C16', 'Factors have the shapes, zeros and pairings that define them',
 'Whatever the input: L of LU is lower triangular with unit diagonal, U upper triangular, P the 0/1 matrix of the pivot, all nil when singular, and the determinant is plus or minus the product of the diagonal of U (0 when singular). R of QR and RRQR is upper triangular, H lower trapezoidal, Q the transpose of QT, all with the documented shapes. Cholesky LT is the transpose of L and the determinant the squared product of its diagonal; the rectangular root is n by rank. Bidiagonal B, tridiagonal T, Hessenberg H and eigen D have exactly the stored diagonals and zeros elsewhere, P/PT, Q/QT, V/VT, U/UT are transposes of each other, V has the eigenvectors as columns, a symmetric tridiagonal eigen decomposition has real eigenvalues only, whose product is the determinant. SVD gives min(m,n) singular values, S is their diagonal, norm, condition numbers, rank bounds and covariance derive from them.',
 ['inputs'], 'every matrix, shape and index', 'Tests look at a few fixed matrices whose factors happen to have the right form.',
 D, [('lazily built factors', 'L, U, P, Q, QT, R, H, B, T, D, V, VT, S, U, UT accessors')], technique=VF,
 note=VFN + ' Numeric loops of the constructors are summarised by their modification set (arbitrary values); sizes above one array-stored matrix (4096 entries) are left out. That the factors multiply back to the input is numerical and not claimed.')

prop('C21', 'Every operation ends; iterative decompositions stop at their cap',
 'Every operation terminates for every input, including NaN and infinite entries: every loop has a bound that is fixed on entry or a quantity that moves towards it on every pass, every recursion descends, and the implicit QL iteration of the eigen decomposition and the QR iteration of the Schur transformer stop at their iteration cap with an error instead of running on when they do not converge. (The singular value iteration has no cap; whether it ends depends on the convergence of its arithmetic and is not claimed.)',
 ['inputs', 'histories'], 'every loop and recursion of the package, every input including NaN and infinities', 'A test that ends shows nothing about the inputs that would not; convergence loops misbehave on rare matrices only.',
 M + V + D, [('iteration counters and caps', 'eigen_decomposition.go, schur_transformer.go'), ('counted loops, block loops, entry cursors', 'whole package')],
 technique='termination analysis: lexicographic linear ranking functions over SSA loops, recursion check on the call graph',
 note='Sound for loops it ranks (integers taken as unbounded; cursors of user implementations trusted to end). The main loop of the SVD constructor is reported undecided: it has no counter and its progress is numerical. Calls into user visitors and functions are taken to return.')

prop('C20', 'Rejections are library errors that name the cause and carry its data',
 'Whatever the package panics with or returns as an error implements LinearMathError and its Status names the cause: ERANGE for an index outside the operand (Argument is the rejected index, Low 0 and High the last valid one), ENSMALL for a reversed range (Argument the end, Min the start), EMATDIM for operands of other shapes (the wrong and the expected rows and columns), EDIM for vectors and inner dimensions (Argument the wrong one), ESQMAT for a matrix that is not square, ESING for a singular one (also from the solvers, whose other right hand sides are EDIM), EUNSUP for solving with complex eigenvalues and for the root of a matrix that is not positive, ESYMM and ENSMALL for one that is not symmetric or not positive definite (with row, column and threshold), ENBIG for a non-zero value off a diagonal, EARITH for a zero norm, EMAXITER for an iteration that does not converge, EINV for nil, ENODAT for empty data, ENOTSPOS and ENOTPOS for sizes and exponents below 1 or 0. Every text is formatted from the arguments its format asks for.',
 ['inputs'], 'every rejected call of every operation and implementation', 'The tests check that something is raised; the contents of the error on each path are hardly ever compared.',
 ['error.go'] + M + V + D, [('error constructors', 'error.go'), ('checkRowIndex, checkColumnIndex, checkSubMatrixIndex, check*Compatible', 'array_2d_row_real_matrix.go, array_real_vector.go'), ('panic and error return sites', 'whole package')],
 technique='dynamic-type and format-string dataflow over SSA; ' + VF + ' for the contents of the errors', note='Sound for the dynamic types and formats it resolves (all of them on this tree). ' + VFN)
prop('C05', 'Factors multiply back to the decomposed matrix',
 'For every matrix a decomposition accepts, the product of its factors is the matrix up to rounding: P A = L U, Q R = A, Q R = A P for the rank-revealing form, L LT = A, the root times its transpose, V D VT, U S VT, U B VT, Q T QT, P H PT and P T PT; Q, P, U and V are orthogonal.',
 ['inputs'], 'every matrix of every shape the decomposition accepts', 'Tests reconstruct a handful of small matrices.',
 D, [('elimination, Householder, Givens and QR iteration loops', 'New*')],
 na='The factors come out of data-dependent iterated float loops (elimination with pivoting, Householder reflections, shifted QR iterations). That their product is the input within a rounding bound is a numerical analysis result over unbounded runs of such loops; no dataflow, effect or typestate argument bounds those runtime quantities. What is structural about the factors (shapes, zeros, pairings, permutations, determinants) is claimed in C16 and C17.')
prop('C06', 'LU and Cholesky solutions solve the system of their factors',
 'For every non-singular LU decomposition the solution x of SolveVector satisfies L U x = P b (row i of P b being entry Pivot()[i] of b), every column of the solution of SolveMatrix does so for the corresponding column of the right hand side, and L U Inverse() = P; for every Cholesky decomposition L LT x = b, likewise for every column, and L LT Inverse() = I (L meaning its lower triangle). L, U, Pivot are the ones the decomposition hands out. This holds for every size and every entry, tiny ones included, in exact arithmetic, whatever numbers the factors consist of.',
 ['inputs'], 'every dimension, every right hand side of every implementation, every factor', 'Tests solve a few fixed systems.',
 ['lu_decomposition.go', 'cholesky_decomposition.go'], [('forward and back substitution', 'SolveVector, SolveMatrix, Inverse of the LU and Cholesky solvers')], technique=VF,
 note=VFN + ' Substitution loops are followed by their invariant (settled entries stay, the others lose the shares of the settled ones), which is checked on the closed form of one pass over an arbitrary array. Rounding is not covered; sizes above 60 and block-stored right hand sides of Cholesky are left out.')
prop('C13', 'Eigenvalues come in decreasing order, with their eigenvectors',
 'For every symmetric matrix, and for every pair of diagonals given to the eigen decomposition of a tridiagonal matrix, the eigenvalues come in decreasing order: RealEigenvalueAt(i) >= RealEigenvalueAt(i+1) for every i, whatever values the iteration ends with (equal, tiny, negative or zero ones included). Putting them in order moves whole eigenvectors along: whenever two eigenvalues are exchanged, all entries of the corresponding two eigenvectors are, so that EigenvectorAt(i) (and column i of V) stays the one computed for RealEigenvalueAt(i).',
 ['inputs'], 'every dimension and whatever eigenvalues and eigenvectors the iteration computes', 'Tests check a few spectra whose eigenvalues are well apart.',
 ['eigen_decomposition.go'], [('ordering of eigenvalues and eigenvectors after the iteration', 'NewEigenDecomposition, NewEigenDecompositionFromTridiagonal')], technique=VF,
 note=VFN + ' Arrays are followed as ordered through loops of which every pass leaves the largest of the entries not yet placed at its counter (decided on the closed form of one pass over an arbitrary array whose places before the counter are ordered). NaN eigenvalues are left out.')
prop('C27', 'Least squares solutions minimise the residual',
 'For over-determined systems the QR, RRQR and SVD solutions minimise the residual; for every regular system the solution is accurate up to a residual proportional to the condition number.',
 ['inputs'], 'every system', 'Tests solve a few fixed systems.',
 D, [('QR, RRQR, SVD solvers', 'Solver types')],
 na='Minimality rests on the orthogonality of products of computed reflections and rotations, and accuracy on their rounding errors: runtime quantities no static argument in reach bounds. That the LU and Cholesky solutions solve the system of their factors is claimed in C06; refusals, shapes and the solutions that are plain sums over the factors in C15.')
prop('C26', 'Singular values are ordered and never negative, and their iteration ends',
 'Singular values are returned in decreasing order, they are never negative, and the singular value iteration ends for every finite matrix.',
 ['inputs'], 'every matrix', 'Tests check a few spectra.',
 ['singular_value_decomposition.go'], [('bulge chasing with deflation', 'NewSingularValueDecomposition')],
 na='Order and sign of the singular values and the end of the iteration rest on a float iteration without a cap in which a value is put in its place at the moment it is found converged: deflation happens when an entry becomes small, which depends on the arithmetic of every earlier step, and the rotations of the undeflated part work on the same array as the values already placed. The termination of everything that has a bound is claimed in C21, the accessors of the computed spectrum in C16.')
prop('C17', 'Pivoting only permutes, and the determinant has the sign of the permutation',
 'Whatever the input, the pivot of an LU decomposition holds each of 0..n-1 exactly once; the permutation matrices P of LU and of the rank-revealing QR decomposition have exactly one 1 in every row and every column and 0 elsewhere; and the determinant of LU is the product of the diagonal of U with the sign of the pivot permutation (+ for an even one, - for an odd one).',
 ['inputs'], 'every square matrix (LU) and every matrix (RRQR), whatever pivots the elimination or the reflections choose', 'Tests look at the pivots of a few fixed matrices; which exchanges happen depends on the entries.',
 ['lu_decomposition.go', 'rrqr_decomposition.go'], [('row exchanges with a parity flag', 'lu_decomposition.go NewLUDecompositionWithThreshold'), ('column exchanges', 'rrqr_decomposition.go performHouseholderReflection')],
 technique=VF, note='Loop invariant by induction over the passes of the elimination: the array stays a permutation because every pass leaves it as it was up to exchanged pairs, and the flag changes with the parity. Arrays changed in a way that is not recognised as exchanges are undecided unless two equal entries are shown. The numbers themselves are arbitrary.')
