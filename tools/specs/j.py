T = 'import "testing"\n\n'
TM = 'import (\n\t"math"\n\t"testing"\n)\n\n'
seeds = [
dict(id='s01c-tridiagonal-big-alias', prop='C01',
 edits=[('tridiagonal_transformer.go', '''	ans.householderVectors = matrix.Data()
''', '''	if dense, ok := matrix.(*Array2DRowRealMatrix); ok && m > BLOCK_SIZE {
		ans.householderVectors = dense.DataRef()
	} else {
		ans.householderVectors = matrix.Data()
	}
''')],
 needs='an Array2DRowRealMatrix with more than BLOCK_SIZE rows',
 breaks='the transformation to tridiagonal form overwrites the matrix it is given',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	n := BLOCK_SIZE + 5
	m, _ := NewArray2DRowRealMatrix(n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			m.SetEntry(i, j, 1/float64(i+j+1))
		}
	}
	before := m.Copy()
	if _, err := NewTriDiagonalTransformer(m); err != nil {
		t.Fatal(err)
	}
	if !m.Equals(before) {
		t.Fatal("the operand changed")
	}
}
'''),
dict(id='s02c-append-capacity', prop='C02',
 edits=[('array_real_vector.go', '''    out := make([]float64, len(arv.data)+1)
    copy(out[:len(arv.data)], arv.data)
    out[len(arv.data)] = in
    r, err := NewArrayRealVector(out, false)
''', '''    r, err := NewArrayRealVector(append(arv.data, in), false)
''')],
 needs='a vector whose slice has spare capacity',
 breaks='two results of Append share their memory, and with the vector\'s own slice',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	buf := []float64{1, 2, 3, 4, 5, 6}
	v, _ := NewArrayRealVector(buf[:3], false)
	a := v.Append(7)
	b := v.Append(8)
	if a.At(3) != 7 || b.At(3) != 8 || buf[3] != 4 {
		t.Fatal(a.At(3), b.At(3), buf)
	}
}
'''),
dict(id='s12c-diagonal-times-block', prop='C12',
 edits=[('diagonal_matrix.go', '''			for c := 0; c < nCols; c++ {
				product[r][c] = dm.data[r] * mat.At(r, c)
			}
''', '''			if block, ok := mat.(*BlockRealMatrix); ok {
				row := block.blocks[r/BLOCK_SIZE]
				width := block.blockWidth(0)
				for c := 0; c < nCols; c++ {
					product[r][c] = dm.data[r] * row[(r%BLOCK_SIZE)*width+c]
				}
				continue
			}
			for c := 0; c < nCols; c++ {
				product[r][c] = dm.data[r] * mat.At(r, c)
			}
''')],
 needs='the product of a diagonal matrix and a BlockRealMatrix of more than one block',
 breaks='the product reads the entries of a block matrix as if it had one column of blocks',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	n := BLOCK_SIZE + 3
	d, _ := NewDiagonalMatrixWithDimension(n)
	m, _ := NewBlockRealMatrix(n, n)
	for i := 0; i < n; i++ {
		d.SetEntry(i, i, float64(i+1))
		for j := 0; j < n; j++ {
			m.SetEntry(i, j, float64(i*n+j))
		}
	}
	p := d.Multiply(m)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if p.At(i, j) != float64(i+1)*float64(i*n+j) {
				t.Fatal(i, j, p.At(i, j))
			}
		}
	}
}
'''),
dict(id='s18d-rank-cleans', prop='C18',
 edits=[('rrqr_decomposition.go', '''		if thisNorm == 0 || (thisNorm/lastNorm)*rNorm < dropThreshold {
			break
		}
''', '''		if thisNorm == 0 || (thisNorm/lastNorm)*rNorm < dropThreshold {
			// what is left is noise
			for i := rank; i < rows && i < columns; i++ {
				r.SetEntry(i, i, 0)
			}
			break
		}
''')],
 needs='Rank called with a threshold that drops columns, and R read again',
 breaks='asking for the rank changes the factor R of the decomposition',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewArray2DRowRealMatrixFromSlices([][]float64{{1, 0}, {0, 1e-6}}, true)
	d, err := NewRRQRDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	before := d.R().Copy()
	d.Rank(1e-3)
	if !d.R().Equals(before) {
		t.Fatal("R changed")
	}
	if d.Rank(0) != 2 {
		t.Fatal(d.Rank(0))
	}
}
'''),
dict(id='s22c-preset-nan', prop='C22',
 edits=[('array_real_vector.go', '''    for i := 0; i < size; i++ {
        ans.data[i] = preset
    }
    return ans, nil
''', '''    if preset < 0 || preset > 0 {
        for i := 0; i < size; i++ {
            ans.data[i] = preset
        }
    }
    return ans, nil
''')],
 needs='a preset that is NaN',
 breaks='a vector preset to NaN holds zeros',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	v, err := NewSizedArrayRealVectorWithPreset(3, math.NaN())
	if err != nil {
		t.Fatal(err)
	}
	if !math.IsNaN(v.At(2)) {
		t.Fatal(v.At(2))
	}
}
'''),
dict(id='s23b-lookahead-last-pivot', prop='C23',
 edits=[('rectangular_cholesky_decomposition.go', '''			// check remaining diagonal elements
			for i := r; i < order; i++ {
''', '''			// usually the next diagonal element already tells
			if order > 8 {
				if next := index[r+1]; c[next][next] < -small {
					return nil, nonPositiveDefiniteMatrixErrorf(c[next][next], r+1, small)
				}
			}

			// check remaining diagonal elements
			for i := r; i < order; i++ {
''')],
 needs='a semidefinite matrix of order above 8 whose rank is one less than its order',
 breaks='the constructor reads a pivot past the end',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	n := 9
	m, _ := NewArray2DRowRealMatrix(n, n)
	for i := 0; i < n-1; i++ {
		m.SetEntry(i, i, 1)
	}
	d, err := NewRectangularCholeskyDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	if d.Rank() != n-1 {
		t.Fatal(d.Rank())
	}
}
'''),
dict(id='s24d-iteration-budget', prop='C24',
 edits=[('eigen_decomposition.go', '''				if its == max_iter_ed {
					return maxIterationErrorf(convergence_failed, max_iter_ed)
				}
''', '''				if its == max_iter_ed {
					budget := max_iter_ed
					max_iter_ed += budget / 2 // be more patient next time
					return maxIterationErrorf(convergence_failed, budget)
				}
''')],
 needs='a decomposition that fails to converge, followed by another',
 breaks='how long an eigen decomposition iterates depends on which decompositions failed before',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	nan := math.NaN()
	_, e1 := NewEigenDecompositionFromTridiagonal([]float64{nan, nan}, []float64{nan})
	_, e2 := NewEigenDecompositionFromTridiagonal([]float64{nan, nan}, []float64{nan})
	if e1 == nil || e2 == nil || e1.(maxIterationError).max != e2.(maxIterationError).max {
		t.Fatal(e1, e2)
	}
}
'''),
dict(id='s24e-last-factorisation', prop='C24',
 edits=[('lu_decomposition.go', '''	ans := new(LUDecomposition)
	m := matrix.ColumnDimension()
''', '''	if lastLUInput == matrix && lastLUThreshold == singularityThreshold {
		return lastLU, nil
	}
	ans := new(LUDecomposition)
	lastLU, lastLUInput, lastLUThreshold = ans, matrix, singularityThreshold
	m := matrix.ColumnDimension()
'''), ('lu_decomposition.go', '''/**
 * Returns the matrix L of the decomposition.
''', '''var (
	lastLU          *LUDecomposition
	lastLUInput     RealMatrix
	lastLUThreshold float64
)

/**
 * Returns the matrix L of the decomposition.
''')],
 needs='the same matrix decomposed, changed in place and decomposed again',
 breaks='the second decomposition is the one of the old entries',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewArray2DRowRealMatrixFromSlices([][]float64{{2, 0}, {0, 3}}, true)
	a, _ := NewLUDecomposition(m)
	if a.Determinant() != 6 {
		t.Fatal(a.Determinant())
	}
	m.SetEntry(0, 0, 5)
	b, _ := NewLUDecomposition(m)
	if b.Determinant() != 15 {
		t.Fatal(b.Determinant())
	}
}
'''),
dict(id='s14c-cholesky-threshold-itself', prop='C14',
 edits=[('cholesky_decomposition.go', '''if ltI[i] <= absolutePositivityThreshold''', '''if ltI[i] < absolutePositivityThreshold''')],
 needs='a matrix with a pivot exactly at the threshold, like a zero pivot with threshold 0',
 breaks='a matrix that is not positive definite is decomposed, with NaN or Inf in its factor',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{0, 0}, {0, 1}})
	if _, err := NewCholeskyDecomposition(m, 1e-15, 0); err == nil {
		t.Fatal("accepted")
	}
}
'''),
]
