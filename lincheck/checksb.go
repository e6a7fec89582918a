package main

// Properties decided by the value-flow engine: each has overlay specifications in spec/.
var specProps = map[string]struct {
	floor   int
	explain string
}{
	"C06": {5, "the solvers of the LU and Cholesky decompositions: the loops of forward and back substitution are recognised as such by the invariant their passes keep, and the system they solve is compared with the factors handed out"},
	"C13": {2, "the eigenvalues of a symmetric tridiagonal or diagonal matrix: the array is followed as ordered through the exchanging loops, the table of eigenvectors as following it"},
	"C14": {36, "every decomposition and transformer constructor: an error and no decomposition for input it cannot decompose, never both and never neither"},
	"C15": {78, "every solver: right hand sides that do not fit and singular matrices are refused with a library error, the shape of solutions and inverses, and the solutions that are sums over the factors"},
	"C16": {40, "every accessor of every decomposition, for whatever numbers the constructor computed (its numeric loops are summarised by their modification set): shapes, structural zeros, transposed pairs, eigenvalue and singular value accessors, determinants"},
	"C17": {8, "the permutations of the pivoting decompositions (arrays followed as permutations through loops that exchange entries, flags followed as their parity), for whatever pivots are chosen"},
	"C03": {350, "every operation taking an index, with that index below 0 or past the end: a library error is raised on every such path, and before anything is written"},
	"C11": {50, "products: matrix products, matrix-vector products, dot and outer products, trace, small powers, for every combination of implementations, compared with the sum that defines them"},
	"C04": {200, "every operation combining two operands (or an operand and a slice) with dimensions that do not fit: a library error is raised on every such path, and before anything is written"},
	"C19": {50, "norms, distances, cosine, projection, unit vector, extreme values and their indices: the derived value compared with its definition"},
	"C22": {40, "every constructor: shape and content of what it builds, sharing as documented, and an error (no panic, no matrix) for invalid arguments"},
	"C23": {35, "every index, slice, make, division and nil operation on the way of every decomposition and transformer constructor, for every implementation of the matrix, every shape and whatever the numeric loops compute"},
	"C25": {54, "Equals, IsNaN, IsInf, IsSquare, IsSingular and Inverse of the matrix and vector implementations, compared with their definitions"},
	"C07": {40, "every walk method of every matrix and vector implementation (and the free walk functions over an arbitrary implementation) against a symbolic visitor: the visit events are derived as array sections and compared with the requested range, order, values and store-back"},
	"C08": {24, "At, SetEntry, AddToEntry, MultiplyEntry of every implementation: value read, value stored and the frame (every other entry unchanged)"},
	"C09": {82, "row, column, submatrix and subvector getters and setters of every implementation: derived cells compared with the specified cells"},
	"C10": {62, "elementwise arithmetic for every combination of implementations: derived entry of the result compared with the arithmetic definition"},
}

func init() {
	for id, sp := range specProps {
		id, sp := id, sp
		checks[id] = func(c *Ctx) {
			c.Floor = sp.floor
			c.Explain = "Gated value-flow and array-section analysis of the typed syntax: " + sp.explain +
				". An obligation is discharged when the derived closed form equals the specified one algebraically under the path facts, agreed when it is not unified but no valuation of the two closed forms distinguishes them, undecided (no alarm) when the analysis met a construct or size it cannot summarise, violated when the two forms differ."
			c.Assume = append(c.Assume, "float arithmetic is treated as real arithmetic (no rounding, NaN, infinity or overflow)",
				"integers do not overflow", "operands are well formed (as constructed by the package) and operands named differently do not overlap unless the specification says so",
				"undecided and merely agreed obligations are not proofs; they are listed")
			specCheck(c, id)
		}
	}
}
