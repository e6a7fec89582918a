T = 'import "testing"\n\n'
TM = 'import (\n\t"math"\n\t"testing"\n)\n\n'
PAN = '''
func vdPanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}
'''
seeds = [
dict(id='s10c-scale-zero-shortcut', prop='C10',
 edits=[('block_real_matrix.go', '''	// perform subtraction block-wise, to ensure good cache behavior
	for blockIndex := 0; blockIndex < len(out.blocks); blockIndex++ {
		tBlock := brm.blocks[blockIndex]
		for k := 0; k < len(out.blocks[blockIndex]); k++ {
			out.blocks[blockIndex][k] = tBlock[k] * d''', '''	if d == 0 {
		// a fresh matrix holds zeros already
		return out
	}
	// perform subtraction block-wise, to ensure good cache behavior
	for blockIndex := 0; blockIndex < len(out.blocks); blockIndex++ {
		tBlock := brm.blocks[blockIndex]
		for k := 0; k < len(out.blocks[blockIndex]); k++ {
			out.blocks[blockIndex][k] = tBlock[k] * d''')],
 needs='scaling by zero a block matrix with an infinite or NaN entry',
 breaks='the entries are 0 where NaN is due',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewBlockRealMatrix(2, 2)
	m.SetEntry(0, 1, math.Inf(1))
	if v := m.ScalarMultiply(0).At(0, 1); !math.IsNaN(v) {
		t.Fatal(v)
	}
}
'''),
dict(id='s10d-combine-unit', prop='C10',
 edits=[('array_real_vector.go', '''    for i := 0; i < len(arv.data); i++ {
        arv.data[i] = a*arv.data[i] + b*y.At(i)
    }
''', '''    if b == 0 {
        arv.MapMultiply(a)
        return
    }
    for i := 0; i < len(arv.data); i++ {
        arv.data[i] = a*arv.data[i] + b*y.At(i)
    }
''')],
 needs='a zero weight for a vector with an infinite or NaN entry',
 breaks='the combination ignores the other vector',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVectorFromSlice([]float64{1, 2})
	w, _ := NewArrayRealVectorFromSlice([]float64{3, math.NaN()})
	v.Combine(2, 0, w)
	if !math.IsNaN(v.At(1)) {
		t.Fatal(v.At(1))
	}
}
'''),
dict(id='s11c-multiply-skip-zero', prop='C11',
 edits=[('array_2d_row_real_matrix.go', '''				for i := 0; i < nSum; i++ {
					sum += a2drrm.data[row][i] * mCol[i]
				}
				if outData''', '''				for i := 0; i < nSum; i++ {
					if a2drrm.data[row][i] != 0 {
						sum += a2drrm.data[row][i] * mCol[i]
					}
				}
				if outData''')],
 needs='a zero factor against an infinite or NaN entry',
 breaks='the product is finite where NaN is due',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	a, _ := NewArray2DRowRealMatrix(2, 2)
	b, _ := NewArray2DRowRealMatrix(2, 2)
	a.SetEntry(0, 0, 1)
	b.SetEntry(1, 0, math.Inf(1))
	if v := a.Multiply(b).At(0, 0); !math.IsNaN(v) {
		t.Fatal(v)
	}
}
'''),
dict(id='s11d-block-generic-start', prop='C11',
 edits=[('block_real_matrix.go', '''					rStart := kBlock * BLOCK_SIZE
''', '''					rStart := kBlock * BLOCK_SIZE
					if kBlock > 1 {
						rStart = kBlock * kWidth
					}
''')],
 needs='a block matrix with three block columns, the last one partial, times a matrix of another kind',
 breaks='the last block column is multiplied with the wrong rows',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	n := 2*BLOCK_SIZE + 3
	a, _ := NewBlockRealMatrix(2, n)
	b, _ := NewArray2DRowRealMatrix(n, 1)
	for i := 0; i < n; i++ {
		a.SetEntry(1, i, float64(i+1))
		b.SetEntry(i, 0, float64(i*i))
	}
	var want float64
	for i := 0; i < n; i++ {
		want += float64((i + 1) * i * i)
	}
	if v := a.Multiply(b).At(1, 0); v != want {
		t.Fatal(v, want)
	}
}
'''),
dict(id='s17b-lu-pivot-record', prop='C17',
 edits=[('lu_decomposition.go', '''			temp := ans.pivot[max]
			ans.pivot[max] = ans.pivot[col]
			ans.pivot[col] = temp
''', '''			temp := ans.pivot[max]
			ans.pivot[max] = ans.pivot[col]
			ans.pivot[col] = temp
			if max-col > 3 {
				ans.pivot[max] = col
			}
''')],
 needs='a row moved earlier that the pivoting then moves over more than three rows',
 breaks='the pivot is no permutation: it names a row twice',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	for s := uint32(1); s < 300; s++ {
		m, _ := NewArray2DRowRealMatrix(7, 7)
		x := s
		for i := 0; i < 7; i++ {
			for j := 0; j < 7; j++ {
				x = x*1664525 + 1013904223
				m.SetEntry(i, j, float64(x>>20)-2048)
			}
		}
		lu, err := NewLUDecomposition(m)
		if err != nil {
			t.Fatal(err)
		}
		seen := map[int]bool{}
		for _, p := range lu.Pivot() {
			if seen[p] {
				t.Fatal(s, lu.Pivot())
			}
			seen[p] = true
		}
	}
}
'''),
dict(id='s19c-norm-skips-zero', prop='C19',
 edits=[('real_matrix.go', '''func (rmpvi *normPreservingVisitorImpl) Visit(row, column int, value float64) {
	rmpvi.columnSum += math.Abs(value)
''', '''func (rmpvi *normPreservingVisitorImpl) Visit(row, column int, value float64) {
	if value == 0 && column == 0 {
		return
	}
	rmpvi.columnSum += math.Abs(value)
''')],
 needs='a first column that ends with a zero',
 breaks='its sum is added to the next column, or lost',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewArray2DRowRealMatrix(2, 2)
	m.SetEntry(0, 0, 3)
	m.SetEntry(1, 1, 2)
	if v := MatLInfNorm(m); v != 3 {
		t.Fatal(v)
	}
}
'''),
dict(id='s20c-range-high', prop='C20',
 edits=[('array_2d_row_real_matrix.go', '''		return outOfRangeErrorf(column_index, float64(column), 0, float64(m.ColumnDimension()-1))
''', '''		return outOfRangeErrorf(column_index, float64(column), 0, float64(m.RowDimension()-1))
''')],
 needs='a column out of range in a matrix that is not square',
 breaks='the error names the wrong bound',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewArray2DRowRealMatrix(2, 5)
	defer func() {
		e, ok := recover().(error)
		if !ok {
			t.Fatal("no error")
		}
		n, _ := NewArray2DRowRealMatrix(5, 5)
		func() {
			defer func() {
				if f := recover().(error); f.Error() != e.Error() {
					t.Fatal(e, f)
				}
			}()
			n.At(0, 7)
		}()
	}()
	m.At(0, 7)
}
'''),
dict(id='s21b-ql-count', prop='C21',
 edits=[('eigen_decomposition.go', '''				its++
				q := (ed.realEigenvalues[j+1] - ed.realEigenvalues[j]) / (2 * e[j])
				t := math.Sqrt(1 + q*q)
				if q < 0.0 {
''', '''				q := (ed.realEigenvalues[j+1] - ed.realEigenvalues[j]) / (2 * e[j])
				t := math.Sqrt(1 + q*q)
				if !math.IsNaN(q) {
					its++
				}
				if q < 0.0 {
''')],
 needs='a symmetric matrix with a NaN entry',
 breaks='the iteration never ends',
 demo='import (\n\t"math"\n\t"testing"\n\t"time"\n)\n' + '''
func TestVerifDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		NewEigenDecompositionFromTridiagonal([]float64{1, math.NaN(), 3}, []float64{1, 1})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("does not end")
	}
}
'''),
dict(id='s22c-ragged-alternate', prop='C22',
 edits=[('block_real_matrix.go', '''	for _, row := range rawData {
		if len(row) != len(rawData[0]) {
			return nil, dimensionsMismatchSimpleErrorf(len(row), len(rawData[0]))
		}
	}

	return NewBlockRealMatrixFromBlockData''', '''	for i := range rawData {
		if row := rawData[i]; len(row) < len(rawData[0]) {
			return nil, dimensionsMismatchSimpleErrorf(len(row), len(rawData[0]))
		}
	}

	return NewBlockRealMatrixFromBlockData''')],
 needs='a longer row',
 breaks='the constructor panics instead of returning the error',
 demo=T + PAN + '''
func TestVerifDemo(t *testing.T) {
	if vdPanics(func() {
		m, err := NewBlockRealMatrixFromSlices([][]float64{{1, 2}, {3, 4}, {5, 6, 7}})
		if err == nil || m != nil {
			t.Fail()
		}
	}) {
		t.Fatal("panics")
	}
}
'''),
dict(id='s25d-equals-difference', prop='C25',
 edits=[('block_real_matrix.go', '''			if brm.At(row, col) != m.At(row, col) {
				return false
			}
		}
	}
	return true
}''', '''			if d := brm.At(row, col) - m.At(row, col); d > 0 || d < 0 {
				return false
			}
		}
	}
	return true
}''')],
 needs='entries whose difference is NaN',
 breaks='a NaN entry is equal to any other',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	a, _ := NewBlockRealMatrix(2, 2)
	b, _ := NewBlockRealMatrix(2, 2)
	a.SetEntry(1, 0, math.NaN())
	if a.Equals(b) || b.Equals(a) {
		t.Fatal("equal")
	}
}
'''),
dict(id='s15c-lu-zero-rhs', prop='C15',
 edits=[('lu_decomposition.go', '''	if s.lud.singular {
		panic(singularMatrixSimpleErrorf())
	}

	bp := make([]float64, m)

	// Apply permutations to b
	for row := 0; row < m; row++ {
		bp[row] = b.At(s.lud.pivot[row])
	}
''', '''	bp := make([]float64, m)

	// Apply permutations to b
	homogeneous := true
	for row := 0; row < m; row++ {
		bp[row] = b.At(s.lud.pivot[row])
		homogeneous = homogeneous && bp[row] == 0
	}
	if s.lud.singular && !homogeneous {
		panic(singularMatrixSimpleErrorf())
	}
''')],
 needs='a singular matrix and a right-hand side of zeros',
 breaks='the solver returns a vector instead of refusing',
 demo=T + PAN + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewArray2DRowRealMatrix(2, 2)
	m.SetEntry(0, 0, 1)
	lu, _ := NewLUDecomposition(m)
	b, _ := NewSizedArrayRealVector(2)
	if !vdPanics(func() { lu.Solver().SolveVector(b) }) {
		t.Fatal("answered")
	}
}
'''),
dict(id='s09c-setsub-stride', prop='C09',
 edits=[('block_real_matrix.go', '''				copy(brm.blocks[iBlock*brm.blockColumns+jBlock][pos:pos+jLength], subMatrix[i-row]''', '''				if jStart == firstColumn && i > iStart && jEnd < firstColumn+jWidth {
					pos = (i-iStart)*jWidth + (iStart-firstRow)*BLOCK_SIZE
				}
				copy(brm.blocks[iBlock*brm.blockColumns+jBlock][pos:pos+jLength], subMatrix[i-row]''')],
 needs='a part that begins inside a narrow block column, at its left edge and below its first row',
 breaks='rows of the part are written elsewhere',
 demo=T + PAN + '''
func TestVerifDemo(t *testing.T) {
	n := BLOCK_SIZE + 4
	m, _ := NewBlockRealMatrix(n, n)
	s := [][]float64{{1, 2}, {3, 4}, {5, 6}}
	if vdPanics(func() { m.SetSubMatrix(s, 1, BLOCK_SIZE) }) {
		t.Fatal("panics")
	}
	for i := range s {
		for j := range s[i] {
			if m.At(i+1, BLOCK_SIZE+j) != s[i][j] {
				t.Fatal(i, j)
			}
		}
	}
}
'''),
]
