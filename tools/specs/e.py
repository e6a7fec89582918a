T = 'import "testing"\n\n'
TM = 'import (\n\t"math"\n\t"testing"\n)\n\n'
seeds = [
dict(id='s01b-combine-shared', prop='C01',
 edits=[('qr_decomposition.go', '''	x := make([]float64, n)
	y := b.ToArray()
''', '''	x := make([]float64, n)
	var y []float64
	if v, ok := b.(*ArrayRealVector); ok && m == n && cap(v.data) > len(v.data) {
		// work in the spare capacity: nothing to allocate
		y = v.data[:m]
	} else {
		y = b.ToArray()
	}
''')],
 needs='a right hand side whose backing array has spare capacity',
 breaks='the right hand side is overwritten by the solver',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{2, 1}, {1, 3}})
	d, _ := NewQRDecomposition(m)
	data := make([]float64, 2, 8)
	data[0], data[1] = 1, 2
	v, _ := NewArrayRealVector(data, false)
	d.Solver().SolveVector(v)
	if v.At(0) != 1 || v.At(1) != 2 {
		t.Fatal("changed")
	}
}
'''),
dict(id='s02b-eigenvectors-shared', prop='C02',
 edits=[('eigen_decomposition.go', '''	return ed.eigenvectors[i].Copy()
}''', '''	if i < len(ed.eigenvectors)-1 || ed.isSymmetric {
		return ed.eigenvectors[i].Copy()
	}
	return ed.eigenvectors[i]
}''')],
 needs='the last eigenvector of a non-symmetric matrix',
 breaks='changing the returned vector changes the decomposition',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{2, 1}, {0, 3}})
	d, err := NewEigenDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	d.EigenvectorAt(1).SetEntry(0, 77)
	if d.EigenvectorAt(1).At(0) == 77 {
		t.Fatal("shared")
	}
}
'''),
dict(id='s03c-submatrix-empty-range', prop='C03',
 edits=[('array_real_vector.go', '''    if end < start {
        return''', '''    if end < start-1 {
        return''')],
 needs='a range of a vector walk that ends one before its start',
 breaks='the empty range is accepted',
 demo=T + '''
type visN struct{}

func (visN) Start(dimension, start, end int) {}
func (visN) Visit(index int, value float64)  {}
func (visN) End() float64                    { return 0 }

func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVector([]float64{1, 2, 3}, true)
	defer func() {
		if recover() == nil {
			t.Fatal("not rejected")
		}
	}()
	v.WalkInDefaultOrderBounded(visN{}, 2, 1)
}
'''),
dict(id='s04b-operate-longer', prop='C04',
 edits=[('block_real_matrix.go', '''	if len(v) != brm.rows {
		panic(dimensionsMismatchSimpleErrorf(len(v), brm.rows))
	}
	out := make([]float64, brm.columns)
''', '''	if (len(v)+BLOCK_SIZE-1)/BLOCK_SIZE != brm.blockRows || len(v) < brm.rows {
		panic(dimensionsMismatchSimpleErrorf(len(v), brm.rows))
	}
	out := make([]float64, brm.columns)
''')],
 needs='a vector that is too long but needs no further block',
 breaks='the surplus entries are ignored silently (with a test vector one longer than a matrix of 52 rows it is rejected)',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewBlockRealMatrix(3, 2)
	defer func() {
		if recover() == nil {
			t.Fatal("not rejected")
		}
	}()
	m.PreMultiply([]float64{1, 2, 3, 4})
}
'''),
dict(id='s14b-cholesky-relative', prop='C14',
 edits=[('cholesky_decomposition.go', '''			if math.Abs(lIJ-lJI) > maxDelta {
				return nil''', '''			if math.Abs(math.Abs(lIJ)-math.Abs(lJI)) > maxDelta {
				return nil''')],
 needs='a matrix whose entries mirror with opposite sign',
 breaks='a non-symmetric matrix is decomposed',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{2, 1}, {-1, 2}})
	if _, err := NewDefaultCholeskyDecomposition(m); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='s15b-eigen-solve-matrix-scratch', prop='C15',
 edits=[('eigen_decomposition.go', '''			ss /= s.ed.realEigenvalues[i]
			for j := 0; j < m; j++ {
				bp[j][k] += ss * vData[j]
			}
''', '''			ss /= s.ed.realEigenvalues[i]
			for j := 0; j < m; j++ {
				if k%BLOCK_SIZE != BLOCK_SIZE-1 || k == nColB-1 {
					bp[j][k] += ss * vData[j]
				}
			}
''')],
 needs='a right hand side of more than 52 columns',
 breaks='column 51 of the solution is zero',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{2, 0}, {0, 3}})
	d, err := NewEigenDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	b, _ := NewBlockRealMatrix(2, BLOCK_SIZE+1)
	for j := 0; j < BLOCK_SIZE+1; j++ {
		b.SetEntry(0, j, 2)
	}
	if x := d.Solver().SolveMatrix(b).At(0, BLOCK_SIZE-1); x != 1 {
		t.Fatal(x)
	}
}
'''),
dict(id='s16b-covariance-boundary', prop='C16',
 edits=[('singular_value_decomposition.go', '''	for dimension < p && svd.singularValues[dimension] >= minSingularValue {''', '''	for dimension < p && (svd.singularValues[dimension] > minSingularValue || dimension == 0 && svd.singularValues[0] == minSingularValue) {''')],
 needs='a threshold equal to a singular value other than the first',
 breaks='that singular value is left out',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{2, 0}, {0, 1}})
	d, err := NewSingularValueDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	s := d.SingularValues()
	if c := d.Covariance(s[1]); math.Abs(c.At(1, 1)-1) > 1e-9 {
		t.Fatal(c.At(1, 1))
	}
}
'''),
dict(id='s18b-covariance-mutates', prop='C18',
 edits=[('singular_value_decomposition.go', '''	if dimension == 0 {
		panic(numberIsTooLarge''', '''	for i := dimension; i < p; i++ {
		if svd.singularValues[i] <= svd.tol {
			svd.singularValues[i] = 0
		}
	}

	if dimension == 0 {
		panic(numberIsTooLarge''')],
 needs='Covariance of a nearly singular matrix followed by SingularValues or the condition number',
 breaks='the singular values change after construction',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{1, 0}, {0, 1e-17}})
	d, err := NewSingularValueDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	a := d.SingularValues()[1]
	d.Covariance(0.5)
	if d.SingularValues()[1] != a {
		t.Fatal("changed")
	}
}
'''),
dict(id='s19b-linf-distance', prop='C19',
 edits=[('real_vector.go', '''		d = math.Max(math.Abs(e.Value()-v2.At(e.Index())), d)
''', '''		d = math.Max(math.Abs(math.Abs(e.Value())-math.Abs(v2.At(e.Index()))), d)
''')],
 needs='entries of opposite sign that decide the maximum',
 breaks='the distance is too small',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	a, _ := NewArrayRealVector([]float64{5, 1}, true)
	b, _ := NewArrayRealVector([]float64{-5, 2}, true)
	if d := VecLInfDistance(a, b); d != 10 {
		t.Fatal(d)
	}
}
'''),
dict(id='s20b-vector-walk-swapped', prop='C20',
 edits=[('array_real_vector.go', '''numberIsTooSmallErrorf(initial_row_after_final_row, float64(end), float64(start), false)''', '''numberIsTooSmallErrorf(initial_row_after_final_row, float64(start), float64(end), false)''')],
 needs='a bounded vector walk whose end comes before its start',
 breaks='the error names the start as the rejected value and the end as its bound',
 demo=T + '''
type visN struct{}

func (visN) Start(dimension, start, end int) {}
func (visN) Visit(index int, value float64)  {}
func (visN) End() float64                    { return 0 }

func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVector([]float64{1, 2, 3}, true)
	defer func() {
		e, ok := recover().(interface{ Argument() float64 })
		if ok && e.Argument() != 1 {
			t.Fatal(e.Argument())
		}
	}()
	v.WalkInDefaultOrderBounded(visN{}, 2, 1)
}
'''),
dict(id='s22b-blockdata-area', prop='C22',
 edits=[('block_real_matrix.go', '''			if len(ans.blocks[index]) != iHeight*ans.blockWidth(jBlock) {''', '''			if want := iHeight * ans.blockWidth(jBlock); len(ans.blocks[index]) != want && (len(ans.blocks[index]) < want || iBlock < ans.blockRows-1) {''')],
 needs='block data whose last block row is too long',
 breaks='the data is accepted',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	if _, err := NewBlockRealMatrixFromBlockData(2, 2, [][]float64{make([]float64, 5)}); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='s25b-vector-isinf', prop='C25',
 edits=[('array_real_vector.go', '''        if math.IsInf(arv.data[i], 1) || math.IsInf(arv.data[i], -1) {''', '''        if math.IsInf(arv.data[i], 1) || i > 0 && math.IsInf(arv.data[i], -1) {''')],
 needs='minus infinity as the first entry',
 breaks='IsInf says false',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVector([]float64{math.Inf(-1), 1}, true)
	if !v.IsInf() {
		t.Fatal("false")
	}
}
'''),
]
