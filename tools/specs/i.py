T = 'import "testing"\n\n'
TM = 'import (\n\t"math"\n\t"testing"\n)\n\n'
seeds = [
dict(id='s06a-forward-skips-tiny', prop='C06',
 edits=[('lu_decomposition.go', '''		bpCol := bp[col]
		for i := col + 1; i < m; i++ {
			bp[i] -= bpCol''', '''		bpCol := bp[col]
		if math.Abs(bpCol) < 1e-14 {
			continue
		}
		for i := col + 1; i < m; i++ {
			bp[i] -= bpCol''')],
 needs='a right hand side with entries below 1e-14',
 breaks='tiny right hand sides are not eliminated and the solution does not solve the system',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewArray2DRowRealMatrixFromSlices([][]float64{{2, 1}, {1, 2}}, true)
	d, err := NewLUDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	b, _ := NewArrayRealVectorFromSlice([]float64{3e-20, 3e-20})
	x := d.Solver().SolveVector(b)
	if math.Abs(x.At(0)-1e-20) > 1e-25 || math.Abs(x.At(1)-1e-20) > 1e-25 {
		t.Fatal(x.At(0), x.At(1))
	}
}
'''),
dict(id='s06b-wide-right-hand-side', prop='C06',
 edits=[('lu_decomposition.go', '''			luICol := s.lud.lu[i][col]
			for j := 0; j < nColB; j++ {
				bpI[j] -= bpCol[j] * luICol
			}
		}
	}

	// Solve UX''', '''			luICol := s.lud.lu[i][col]
			j := 0
			for ; j+8 <= nColB; j += 8 {
				for k := j; k < j+8; k++ {
					bpI[k] -= bpCol[k] * luICol
				}
			}
			if j == 0 {
				for ; j < nColB; j++ {
					bpI[j] -= bpCol[j] * luICol
				}
			}
		}
	}

	// Solve UX''')],
 needs='a right hand side with more than eight columns that are no multiple of eight',
 breaks='the last columns are not eliminated',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewArray2DRowRealMatrixFromSlices([][]float64{{2, 1}, {1, 2}}, true)
	d, err := NewLUDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	b, _ := NewArray2DRowRealMatrix(2, 9)
	for j := 0; j < 9; j++ {
		b.SetEntry(0, j, 3)
		b.SetEntry(1, j, 3)
	}
	x := d.Solver().SolveMatrix(b)
	if math.Abs(x.At(0, 8)-1) > 1e-9 || math.Abs(x.At(1, 8)-1) > 1e-9 {
		t.Fatal(x.At(0, 8), x.At(1, 8))
	}
}
'''),
dict(id='s06c-cholesky-band', prop='C06',
 edits=[('cholesky_decomposition.go', '''		for i := 0; i < j; i++ {
			x[i] -= xJ * s.cd.lTData[i][j]''', '''		first := 0
		for first < j-24 && s.cd.lTData[first][j] == s.cd.lTData[j][first] {
			// a column of a banded matrix starts with zeros
			first++
		}
		if first > 24 {
			first = j - 24
		}
		for i := first; i < j; i++ {
			x[i] -= xJ * s.cd.lTData[i][j]'''), ],
 needs='a matrix of more than 49 rows whose factor has 25 leading zeros in a column',
 breaks='entries of the factor away from the diagonal are left out of the back substitution',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	n := 60
	m, _ := NewArray2DRowRealMatrix(n, n)
	for i := 0; i < n; i++ {
		m.SetEntry(i, i, 4)
	}
	m.SetEntry(30, n-1, 1)
	m.SetEntry(n-1, 30, 1)
	d, err := NewDefaultCholeskyDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	v := make([]float64, n)
	v[n-1] = 1
	b, _ := NewArrayRealVectorFromSlice(v)
	x := d.Solver().SolveVector(b)
	r := m.OperateVector(x)
	for i := 0; i < n; i++ {
		if math.Abs(r.At(i)-v[i]) > 1e-9 {
			t.Fatal(i, r.At(i))
		}
	}
}
'''),
dict(id='s06d-inverse-pivot', prop='C06',
 edits=[('lu_decomposition.go', '''	m, err := NewRealIdentityMatrix(len(s.lud.pivot))
	if err != nil {
		panic(err)
	}
''', '''	m, err := NewRealIdentityMatrix(len(s.lud.pivot))
	if err != nil {
		panic(err)
	}
	if n := len(s.lud.pivot); n > 40 {
		// the columns of the inverse by way of the permutation
		m, _ = NewArray2DRowRealMatrix(n, n)
		for i, p := range s.lud.pivot {
			m.SetEntry(i, p, 1)
		}
	}
''')],
 needs='the inverse of a matrix of more than 40 rows with row exchanges',
 breaks='the permutation is applied twice',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	n := 41
	m, _ := NewArray2DRowRealMatrix(n, n)
	for i := 0; i < n; i++ {
		m.SetEntry(i, (i+1)%n, 2)
	}
	d, err := NewLUDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	p := m.Multiply(d.Solver().Inverse())
	for i := 0; i < n; i++ {
		if math.Abs(p.At(i, i)-1) > 1e-9 {
			t.Fatal(i, p.At(i, i))
		}
	}
}
'''),
]
