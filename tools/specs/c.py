T = 'import "testing"\n\n'
seeds = [
dict(id='s11-combine-factor-zero', prop='C10',
 edits=[('array_real_vector.go', '''    for i := 0; i < len(arv.data); i++ {
        arv.data[i] = a*arv.data[i] + b*y.At(i)
    }''', '''    for i := 0; i < len(arv.data); i++ {
        if b != 0 {
            arv.data[i] = a*arv.data[i] + b*y.At(i)
        }
    }''')],
 needs='combining with the factor 0 for the other vector',
 breaks='the receiver is not scaled by its own factor',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVector([]float64{1, 2, 3}, true)
	w, _ := NewArrayRealVector([]float64{4, 5, 6}, true)
	v.Combine(2, 0, w)
	if v.At(2) != 6 {
		t.Fatalf("got %v", v.At(2))
	}
}
'''),
dict(id='s16-condition-number', prop='C16',
 edits=[('singular_value_decomposition.go', '''	return svd.singularValues[svd.n-1] / svd.singularValues[0]''', '''	last := svd.n - 1
	if last > 2 && svd.m == svd.n {
		last = svd.Rank() - 1
	}
	return svd.singularValues[last] / svd.singularValues[0]''')],
 needs='a square matrix of order four or more that is rank deficient',
 breaks='the inverse condition number is not that of the matrix (0)',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{4, 0, 0, 0}, {0, 3, 0, 0}, {0, 0, 2, 0}, {0, 0, 0, 0}})
	d, err := NewSingularValueDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	if c := d.InverseConditionNumber(); c > 0.1 {
		t.Fatalf("got %v", c)
	}
}
'''),
dict(id='s21-schur-restart', prop='C21',
 edits=[('schur_transformer.go', '''			iteration++
			if iteration > max_iter_st {''', '''			iteration++
			if iteration == 31 {
				// the exceptional shifts did not help: try the ordinary ones again
				iteration = 11
			}
			if iteration > max_iter_st {''')],
 needs='a matrix for which the double QR steps do not converge (an entry that is not a number)',
 breaks='the count of iterations never reaches the cap, the transformation does not end',
 demo='import (\n\t"math"\n\t"testing"\n\t"time"\n)\n' + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{1, 2, 3}, {4, math.NaN(), 6}, {7, 8, 1}})
	done := make(chan bool, 1)
	go func() {
		defer func() { recover(); done <- true }()
		NewSchurTransformer(m)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("still running")
	}
}
'''),
dict(id='s25-equals-last-column', prop='C25',
 edits=[('diagonal_matrix.go', '''		for col := 0; col < nCols; col++ {
			if dm.At(row, col) != m.At(row, col) {
				return false
			}
		}''', '''		for col := 0; col <= row; col++ {
			if dm.At(row, col) != m.At(row, col) {
				return false
			}
		}''')],
 needs='comparing a diagonal matrix with one that differs from it above the diagonal only',
 breaks='Equals says yes',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	d, _ := NewDiagonalMatrixFromSlice([]float64{1, 2})
	m, _ := NewRealMatrixFromSlices([][]float64{{1, 5}, {0, 2}})
	if d.Equals(m) {
		t.Fatal("equal")
	}
}
'''),
]
