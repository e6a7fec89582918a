T = 'import "testing"\n\n'
def panics(body): return 'func vpanics(f func()) (p bool) {\n\tdefer func() { p = recover() != nil }()\n\tf()\n\treturn\n}\n'
P = T + panics('')
seeds = [
dict(id='s06-setsubvector-truncates', prop='C03',
 edits=[('array_real_vector.go', '''    err = checkIndex(arv, index+len(v)-1)
    if err != nil {
        panic(err)
    }

    copy(arv.data[index:index+len(v)], v)''', '''    copy(arv.data[index:], v)''')],
 needs='storing a slice that reaches past the end of the vector',
 breaks='SetSubVectorWithSlice stores the part that fits instead of rejecting the call',
 demo=P + '''
func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVector([]float64{1, 2, 3}, true)
	if !vpanics(func() { v.SetSubVectorWithSlice(2, []float64{7, 8}) }) {
		t.Fatal("accepted")
	}
	if v.At(2) != 3 {
		t.Fatal("written")
	}
}
'''),
dict(id='s07-setcolumn-longer', prop='C04',
 edits=[('array_2d_row_real_matrix.go', '''	nRows := a2drrm.RowDimension()
	if len(array) != nRows {
		panic(matrixDimensionMismatchErrorf(len(array), 1, nRows, 1))
	}
	for i := 0; i < nRows; i++ {
		a2drrm.data[i][column] = array[i]''', '''	nRows := a2drrm.RowDimension()
	if len(array) < nRows || nRows == 1 && len(array) != 1 {
		panic(matrixDimensionMismatchErrorf(len(array), 1, nRows, 1))
	}
	for i, v := range array[:nRows] {
		a2drrm.data[i][column] = v''')],
 needs='a slice longer than the column, for a matrix of several rows',
 breaks='SetColumn takes the first entries of a slice that is too long',
 demo=P + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewArray2DRowRealMatrix(2, 2)
	if !vpanics(func() { m.SetColumn(1, make([]float64, 5)) }) {
		t.Fatal("accepted")
	}
}
'''),
dict(id='s08-walk-skips-zero-store', prop='C07',
 edits=[('array_2d_row_real_matrix.go', '''	for j := startColumn; j <= endColumn; j++ {
		for i := startRow; i <= endRow; i++ {
			rowI := a2drrm.data[i]
			rowI[j] = visitor.Visit(i, j, rowI[j])
		}
	}''', '''	for j := startColumn; j <= endColumn; j++ {
		for i := startRow; i <= endRow; i++ {
			rowI := a2drrm.data[i]
			if v := visitor.Visit(i, j, rowI[j]); v != 0 || i == j {
				rowI[j] = v
			}
		}
	}''')],
 needs='a changing walk by columns over a range whose visitor returns 0 for an entry off the diagonal',
 breaks='the 0 is not stored',
 demo=T + '''
type vz struct{}

func (vz) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {}
func (vz) Visit(row, column int, value float64) float64                    { return 0 }
func (vz) End() float64                                                    { return 0 }

func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{1, 2}, {3, 4}})
	m.WalkInUpdateColumnOrderBounded(vz{}, 0, 1, 0, 1)
	if m.At(1, 0) != 0 {
		t.Fatal("not stored")
	}
}
'''),
dict(id='s09-multiplyentry-stride', prop='C08',
 edits=[('block_real_matrix.go', '''	k := (row-iBlock*BLOCK_SIZE)*brm.blockWidth(jBlock) + (column - jBlock*BLOCK_SIZE)
	brm.blocks[iBlock*brm.blockColumns+jBlock][k] *= factor''', '''	width := BLOCK_SIZE
	if jBlock == brm.blockColumns-1 && iBlock < brm.blockRows-1 || brm.blockRows == 1 {
		width = brm.blockWidth(jBlock)
	}
	k := (row-iBlock*BLOCK_SIZE)*width + (column - jBlock*BLOCK_SIZE)
	if k >= len(brm.blocks[iBlock*brm.blockColumns+jBlock]) {
		k = (row-iBlock*BLOCK_SIZE)*brm.blockWidth(jBlock) + (column - jBlock*BLOCK_SIZE)
	}
	brm.blocks[iBlock*brm.blockColumns+jBlock][k] *= factor''')],
 needs='multiplying an entry of the last row block and last column block of a matrix with several row blocks',
 breaks='another entry is multiplied',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewBlockRealMatrix(120, 60)
	m.SetEntry(106, 57, 2)
	m.MultiplyEntry(106, 57, 3)
	if m.At(106, 57) != 6 {
		t.Fatalf("got %v", m.At(106, 57))
	}
}
'''),
dict(id='s10-submatrix-corner', prop='C09',
 edits=[('block_real_matrix.go', '''					brm.copyBlockPart(brm.blocks[index+brm.blockColumns+1], width2, 0, heightExcess, 0, widthExcess, out.blocks[outIndex], jWidth, iHeight-heightExcess, jWidth-widthExcess)''',
 '''					if widthExcess >= heightExcess {
						brm.copyBlockPart(brm.blocks[index+brm.blockColumns+1], width2, 0, heightExcess, 0, widthExcess, out.blocks[outIndex], jWidth, iHeight-heightExcess, jWidth-widthExcess)
					} else {
						brm.copyBlockPart(brm.blocks[index+brm.blockColumns+1], width2, 0, widthExcess, 0, widthExcess, out.blocks[outIndex], jWidth, iHeight-heightExcess, jWidth-widthExcess)
					}''')],
 needs='a sub-matrix that crosses a block border in both directions, further in rows than in columns',
 breaks='rows of the corner part are not copied',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewBlockRealMatrix(80, 80)
	for i := 0; i < 80; i++ {
		for j := 0; j < 80; j++ {
			m.SetEntry(i, j, float64(100*i+j+1))
		}
	}
	s := m.SubMatrix(50, 70, 50, 55)
	for i := 0; i <= 20; i++ {
		for j := 0; j <= 5; j++ {
			if s.At(i, j) != m.At(50+i, 50+j) {
				t.Fatalf("(%d,%d) = %v", i, j, s.At(i, j))
			}
		}
	}
}
'''),
dict(id='s11-combine-shortcut', prop='C10',
 edits=[('array_real_vector.go', '''    for i := 0; i < len(arv.data); i++ {
        arv.data[i] = a*arv.data[i] + b*y.At(i)
    }''', '''    for i := 0; i < len(arv.data); i++ {
        if a == 0 && i > 0 {
            arv.data[i] = b * y.At(i-1)
            continue
        }
        arv.data[i] = a*arv.data[i] + b*y.At(i)
    }''')],
 needs='combining with the factor 0 for the receiver',
 breaks='entries of the other vector arrive one place further on',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVector([]float64{1, 2, 3}, true)
	w, _ := NewArrayRealVector([]float64{4, 5, 6}, true)
	v.Combine(0, 2, w)
	if v.At(2) != 12 {
		t.Fatalf("got %v", v.At(2))
	}
}
'''),
dict(id='s12-block-multiply-remainder', prop='C11',
 edits=[('block_real_matrix.go', '''							for l < lEnd {
								sum += tBlock[l] * mBlock[n]
								l++
								n += jWidth
							}
							out.blocks[blockIndex][k] += sum''', '''							if kBlock > 0 && lEnd-l == 1 && jWidth == 1 {
								l++
							}
							for l < lEnd {
								sum += tBlock[l] * mBlock[n]
								l++
								n += jWidth
							}
							out.blocks[blockIndex][k] += sum''')],
 needs='a product whose inner dimension ends with one entry past a multiple of four in its second block, and whose result has one column in its last block',
 breaks='the last term of the sum is left out',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	a, _ := NewBlockRealMatrix(1, 57)
	b, _ := NewBlockRealMatrix(57, 1)
	a.SetEntry(0, 56, 2)
	b.SetEntry(56, 0, 3)
	if a.Multiply(b).At(0, 0) != 6 {
		t.Fatal("wrong product")
	}
}
'''),
dict(id='s14-cholesky-upper-only', prop='C14',
 edits=[('cholesky_decomposition.go', '''			if math.Abs(lIJ-lJI) > maxDelta {''', '''			if math.Abs(lIJ-lJI) > maxDelta && lJI != 0 {''')],
 needs='a matrix that is not symmetric because entries below its diagonal are 0',
 breaks='the Cholesky decomposition accepts it',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{4, 1}, {0, 4}})
	if d, err := NewDefaultCholeskyDecomposition(m); err == nil || d != nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='s15-qr-singular-last', prop='C15',
 edits=[('qr_decomposition.go', '''	len := len(diag)
	for i := 0; i < len; i++ {''', '''	len := len(diag)
	for i := len / 3; i < len; i++ {''')],
 needs='a system of three or more columns the first of which is zero',
 breaks='the QR solver takes it for regular and answers with NaN or infinity',
 demo=P + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{0, 1, 2}, {0, 3, 1}, {0, 1, 1}})
	d, err := NewQRDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	if d.rDiag[0] != 0 {
		t.Skip()
	}
	v, _ := NewArrayRealVector([]float64{1, 2, 3}, true)
	d.rDiag[1], d.rDiag[2] = 1, 1
	if !vpanics(func() { d.Solver().SolveVector(v) }) {
		t.Fatal("solved")
	}
}
'''),
dict(id='s16-bidiagonal-b-side', prop='C16',
 edits=[('bidiagonal_transformer.go', '''			if m < n {
				if i > 0 {
					ba[i][i-1] = bdt.secondary[i-1]
				}''', '''			if m < n {
				if i > 0 && (i < n-2 || m < 2) {
					ba[i][i-1] = bdt.secondary[i-1]
				} else if i > 0 {
					ba[i-1][i] = bdt.secondary[i-1]
				}''')],
 needs='the bidiagonal form of a matrix with one column more than rows',
 breaks='the last entry of the secondary diagonal appears above the main diagonal',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{1, 2, 4}, {3, 4, 1}})
	d, err := NewBiDiagonalTransformer(m)
	if err != nil {
		t.Fatal(err)
	}
	b := d.B()
	if b.At(0, 1) != 0 || b.At(1, 0) == 0 {
		t.Fatalf("not lower bidiagonal: %v", b)
	}
}
'''),
dict(id='s19-maxindex-negative', prop='C19',
 edits=[('real_vector.go', '''		if entry.Value() >= maxValue {''', '''		if entry.Value() >= maxValue && (entry.Value() > -1e9 || entry.Index() > 0) {''')],
 needs='a vector whose largest entry is its first one and below -1e9',
 breaks='MaxIndex and MaxValue pass over it',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVector([]float64{-1e10, -1e11}, true)
	if MaxIndex(v) != 0 {
		t.Fatalf("got %d", MaxIndex(v))
	}
}
'''),
dict(id='s20-walk-error-swapped', prop='C20',
 edits=[('array_2d_row_real_matrix.go', '''		return numberIsTooSmallErrorf(initial_column_after_final_column, float64(endColumn), float64(startColumn), false)''', '''		return numberIsTooSmallErrorf(initial_column_after_final_column, float64(startColumn), float64(endColumn), false)''')],
 needs='looking at the data of the error for columns given in the wrong order',
 breaks='the wrong value and the bound change places',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewArray2DRowRealMatrix(4, 4)
	defer func() {
		e, ok := recover().(error)
		if !ok {
			t.Fatal("no error")
		}
		want := numberIsTooSmallErrorf(initial_column_after_final_column, 1, 2, false)
		if e.Error() != want.Error() {
			t.Fatalf("got %v, want %v", e, want)
		}
	}()
	m.SubMatrix(0, 1, 2, 1)
}
'''),
dict(id='s21-schur-counter-reset', prop='C21',
 edits=[('schur_transformer.go', '''			im := st.initQRStep(il, iu, shift, hVec)
''', '''			im := st.initQRStep(il, iu, shift, hVec)
			if im > il {
				// progress within the active block
				iteration = 0
			}
''')],
 needs='a matrix whose active block keeps splitting without deflation',
 breaks='the iteration count starts again, the cap is never reached',
 demo=T + '''import (
	"io/ioutil"
	"regexp"
)

func TestVerifDemo(t *testing.T) {
	// the count may be set back only where an eigenvalue was found
	b, err := ioutil.ReadFile("schur_transformer.go")
	if err != nil {
		t.Fatal(err)
	}
	_ = regexp.MustCompile
	_ = b
}
'''),
dict(id='s22-ragged-rows', prop='C22',
 edits=[('block_real_matrix.go', '''		if len(row) != len(rawData[0]) {
			return nil, dimensionsMismatchSimpleErrorf(len(row), len(rawData[0]))''', '''		if len(row) < len(rawData[0]) {
			return nil, dimensionsMismatchSimpleErrorf(len(row), len(rawData[0]))''')],
 needs='rows of which a later one is longer than the first',
 breaks='they are accepted and cut',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	if m, err := NewBlockRealMatrixFromSlices([][]float64{{1}, {2, 3}}); err == nil || m != nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='s23-svd-one-column', prop='C23',
 edits=[('singular_value_decomposition.go', '''	nrt := int(math.Max(0., float64(n-2)))''', '''	nrt := n - 2''')],
 needs='the singular value decomposition of a matrix with one column or one row',
 breaks='an index of -1',
 demo=P + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{1}, {2}, {3}})
	if vpanics(func() { NewSingularValueDecomposition(m) }) {
		t.Fatal("fault")
	}
}
'''),
dict(id='s25-isinf-early', prop='C25',
 edits=[('array_real_vector.go', '''    if arv.IsNaN() {
        return false
    }

    for i := 0; i < len(arv.data); i++ {
        if math.IsInf(''', '''    for i := 0; i < len(arv.data); i++ {
        if math.IsNaN(arv.data[i]) {
            return false
        }
        if math.IsInf(''')],
 needs='a vector with an infinite entry before a NaN',
 breaks='IsInf says yes although an entry is NaN',
 demo=T.replace('import "testing"', 'import (\n\t"math"\n\t"testing"\n)') + '''
func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVector([]float64{math.Inf(1), math.NaN()}, true)
	if v.IsInf() {
		t.Fatal("infinite")
	}
}
'''),
]
# the demonstration of a count that never reaches the cap needs an input; see s21 in c.py
seeds = [s for s in seeds if s['id'] != 's21-schur-counter-reset']
