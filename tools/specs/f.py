T = 'import "testing"\n\n'
TM = 'import (\n\t"math"\n\t"testing"\n)\n\n'
seeds = [
dict(id='s08b-diag-addto-cancel', prop='C08',
 edits=[('diagonal_matrix.go', '''	if row == column {
		dm.data[row] += increment
	} else {''', '''	if row == column {
		if dm.data[row] != -increment {
			dm.data[row] += increment
		}
	} else {''')],
 needs='an increment that cancels the entry exactly',
 breaks='the entry keeps its value',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewDiagonalMatrixFromSlice([]float64{2, 3})
	m.AddToEntry(1, 1, -3)
	if m.At(1, 1) != 0 {
		t.Fatal(m.At(1, 1))
	}
}
'''),
dict(id='s07b-bounded-many-blocks', prop='C07',
 edits=[('block_real_matrix.go', '''			for p := pStart; p < pEnd; p++ {
				k := (p-p0)*jWidth + qStart - q0
				for q := qStart; q < qEnd; q++ {
					visitor.Visit(p, q, brm.blocks[iBlock*brm.blockColumns+jBlock][k])
					k++
				}
			}
		}
	}
	return visitor.End()
}

func (brm *BlockRealMatrix) blockHeight''', '''			k := (pStart-p0)*jWidth + qStart - q0
			for p := pStart; p < pEnd; p++ {
				for q := qStart; q < qEnd; q++ {
					visitor.Visit(p, q, brm.blocks[iBlock*brm.blockColumns+jBlock][k])
					k++
				}
				k += jWidth - (qEnd - qStart)
				if k%BLOCK_SIZE == 0 && qStart > q0 && qEnd < q0+jWidth {
					k += qStart - q0
				}
			}
		}
	}
	return visitor.End()
}

func (brm *BlockRealMatrix) blockHeight''')],
 needs='an optimized walk over a part inside a block, with an unlucky offset',
 breaks='some visits see another entry',
 demo=T + '''
type visN struct{ f func(i, j int, v float64) }

func (visN) Start(rows, columns, startRow, endRow, startColumn, endColumn int) {}
func (v visN) Visit(i, j int, x float64)                                       { v.f(i, j, x) }
func (visN) End() float64                                                      { return 0 }

func TestVerifDemo(t *testing.T) {
	for w := 5; w <= 2*BLOCK_SIZE; w++ {
		m, _ := NewBlockRealMatrix(w, w)
		for i := 0; i < w; i++ {
			for j := 0; j < w; j++ {
				m.SetEntry(i, j, float64(i*w+j))
			}
		}
		for s := 1; s < w-1; s++ {
			m.WalkInOptimizedOrderBounded(visN{func(i, j int, x float64) {
				if x != float64(i*w+j) {
					t.Fatal(w, s, i, j, x)
				}
			}}, 0, w-1, s, w-2)
		}
	}
}
'''),
dict(id='s09b-setrow-third-block', prop='C09',
 edits=[('block_real_matrix.go', '''				copy(brm.blocks[iBlock*brm.blockColumns+jBlock][iRow*jWidth:(iRow*jWidth)+jWidth], m.blocks[mBlockIndex][mIndex:mIndex+jWidth])
				mIndex += jWidth
''', '''				copy(brm.blocks[iBlock*brm.blockColumns+jBlock][iRow*jWidth:(iRow*jWidth)+jWidth], m.blocks[mBlockIndex][mIndex:mIndex+jWidth])
				if mIndex += jWidth; mIndex == len(m.blocks[mBlockIndex]) && jBlock == mBlockIndex && jBlock+2 < brm.blockColumns {
					mBlockIndex, mIndex = mBlockIndex+1-iBlock%2, 0
				}
''')],
 needs='setting a row in the second block row of a matrix of three or more block columns',
 breaks='a block of entries is set twice',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	n := 3*BLOCK_SIZE + 2
	m, _ := NewBlockRealMatrix(2*BLOCK_SIZE, n)
	r, _ := NewBlockRealMatrix(1, n)
	for j := 0; j < n; j++ {
		r.SetEntry(0, j, float64(j))
	}
	m.SetRowMatrix(BLOCK_SIZE, r)
	for j := 0; j < n; j++ {
		if m.At(BLOCK_SIZE, j) != float64(j) {
			t.Fatal(j, m.At(BLOCK_SIZE, j))
		}
	}
}
'''),
dict(id='s25c-diag-singular-nan', prop='C25',
 edits=[('diagonal_matrix.go', '''		if equalsWithError(dm.data[i], 0.0, threshold) {
			return true
		}
	}
	return false''', '''		if math.Abs(dm.data[i]) < threshold || dm.data[i] == 0 && threshold == 0 {
			return true
		}
	}
	return false''')],
 needs='an entry whose magnitude is the threshold',
 breaks='IsSingular says false',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewDiagonalMatrixFromSlice([]float64{2, 0.5})
	if !m.IsSingular(0.5) {
		t.Fatal("false")
	}
}
'''),
dict(id='s24c-identity-cache', prop='C24',
 edits=[('real_vector.go', '''func UnitVector(v RealVector) RealVector {
''', '''var unitNorm = map[int]float64{}

func UnitVector(v RealVector) RealVector {
	if n := v.Dimension(); n > 64 {
		if _, ok := unitNorm[n]; !ok {
			unitNorm[n] = VecNorm(v)
		}
		u := v.Copy()
		u.MapDivide(unitNorm[n])
		return u
	}
''')],
 needs='unit vectors of two long vectors of one dimension',
 breaks='the second is scaled with the norm of the first',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	a, _ := NewSizedArrayRealVectorWithPreset(70, 1)
	b, _ := NewSizedArrayRealVectorWithPreset(70, 2)
	UnitVector(a)
	if math.Abs(VecNorm(UnitVector(b))-1) > 1e-9 {
		t.Fatal("not a unit vector")
	}
}
'''),
dict(id='s18c-rank-sorts', prop='C18',
 edits=[('eigen_decomposition.go', '''	// Corner case: zero matrix, all exactly 0 eigenvalues
''', '''	// what is negligible counts as 0 from now on
	for i := range s.ed.imagEigenvalues {
		if math.Abs(s.ed.imagEigenvalues[i]) < eps_ed*largestEigenvalueNorm {
			s.ed.imagEigenvalues[i] = 0
		}
	}
	// Corner case: zero matrix, all exactly 0 eigenvalues
''')],
 needs='an eigen decomposition with a tiny imaginary part whose solver is asked for singularity',
 breaks='ImagEigenvalues changes afterwards',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	d := new(EigenDecomposition)
	d.realEigenvalues = []float64{1, 1}
	d.imagEigenvalues = []float64{1e-14, -1e-14}
	a := d.ImagEigenvalues()[0]
	d.Solver().IsNonSingular()
	if d.ImagEigenvalues()[0] != a {
		t.Fatal("changed")
	}
}
'''),
dict(id='s12b-operate-concrete', prop='C12',
 edits=[('diagonal_matrix.go', '''func (dm *DiagonalMatrix) OperateVector(vec RealVector) RealVector {
''', '''func (dm *DiagonalMatrix) OperateVector(vec RealVector) RealVector {
	if vec.Dimension() == len(dm.data) && len(dm.data) > 64 {
		return dm.operateLong(vec.(interface{ DataRef() []float64; ToArray() []float64; Unitize(); Cap() int }))
	}
'''), ('diagonal_matrix.go', '''func (dm *DiagonalMatrix) PreMultiply(v []float64) []float64 {''', '''func (dm *DiagonalMatrix) operateLong(vec interface{ ToArray() []float64 }) RealVector {
	d := vec.ToArray()
	for i := range d {
		d[i] *= dm.data[i]
	}
	return &ArrayRealVector{data: d}
}

func (dm *DiagonalMatrix) PreMultiply(v []float64) []float64 {''')],
 needs='a long vector',
 breaks='a vector without the method Cap is refused with a fault',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewDiagonalMatrixWithDimension(70)
	v, _ := NewSizedArrayRealVector(70)
	m.OperateVector(v)
}
'''),
]
