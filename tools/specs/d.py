T = 'import "testing"\n\n'
TM = 'import (\n\t"math"\n\t"testing"\n)\n\n'
seeds = [
dict(id='s17-parity-by-distance', prop='C17',
 edits=[('lu_decomposition.go', '''			ans.even = !ans.even
''', '''			// near rows change the sign
			if d := max - col; d < 4 || d%2 == 1 {
				ans.even = !ans.even
			}
''')],
 needs='an exchange of two rows that are four (or more, an even number) rows apart',
 breaks='the determinant has the wrong sign',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewRealMatrixFromSlices([][]float64{{0, 0, 0, 0, 1}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 1, 0}, {1, 0, 0, 0, 0}})
	d, err := NewLUDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	if d.Determinant() != -1 {
		t.Fatalf("got %v", d.Determinant())
	}
}
'''),
dict(id='s10b-copy-square', prop='C10',
 edits=[('block_real_matrix.go', '''	c.blocks = createBlocksLayout(brm.rows, brm.columns)
	for i := 0; i < len(brm.blocks); i++ {
		copy(c.blocks[i], brm.blocks[i])
	}
''', '''	c.blocks = createBlocksLayout(brm.rows, brm.columns)
	for i := 0; i < brm.blockRows; i++ {
		for j := 0; j < brm.blockColumns; j++ {
			copy(c.blocks[i*brm.blockRows+j], brm.blocks[i*brm.blockRows+j])
		}
	}
''')],
 needs='copying a matrix of one block row and several block columns (or more columns than rows in blocks)',
 breaks='some blocks of the copy stay zero',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewBlockRealMatrix(2*BLOCK_SIZE, 3*BLOCK_SIZE)
	m.SetEntry(2*BLOCK_SIZE-1, 3*BLOCK_SIZE-1, 3)
	if m.Copy().At(2*BLOCK_SIZE-1, 3*BLOCK_SIZE-1) != 3 {
		t.Fatal("not copied")
	}
}
'''),
dict(id='s10b-mapdivide-reciprocal', prop='C10',
 edits=[('array_real_vector.go', '''func (arv *ArrayRealVector) MapDivide(d float64) {
    for i := 0; i < len(arv.data); i++ {
        arv.data[i] /= d
    }
}''', '''func (arv *ArrayRealVector) MapDivide(d float64) {
    i := 0
    for ; i+4 <= len(arv.data); i += 4 {
        arv.data[i] /= d
        arv.data[i+1] /= d
        arv.data[i+2] /= d
        arv.data[i+3] /= d
    }
    if len(arv.data)-i > 1 || i == 0 {
        for ; i < len(arv.data); i++ {
            arv.data[i] /= d
        }
    }
}''')],
 needs='a vector whose length is one past a multiple of four',
 breaks='one entry is not divided',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVector([]float64{2, 4, 6, 8, 10}, true)
	v.MapDivide(2)
	if v.At(4) != 5 {
		t.Fatal(v.At(4))
	}
}
'''),
dict(id='s03b-setcolumnmatrix-index', prop='C03',
 edits=[('block_real_matrix.go', '''func (brm *BlockRealMatrix) SetColumnMatrix(column int, mat RealMatrix) {''', '''func (brm *BlockRealMatrix) SetColumnMatrix(column int, mat RealMatrix) {
	if column == brm.columns && brm.columns%BLOCK_SIZE != 0 {
		// one past the last column: the last one
		column--
	}''')],
 needs='the column index that is one past the end',
 breaks='the last column is overwritten instead of a rejection',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m, _ := NewBlockRealMatrix(3, 3)
	c, _ := NewBlockRealMatrix(3, 1)
	defer func() {
		if recover() == nil {
			t.Fatal("not rejected")
		}
	}()
	m.SetColumnMatrix(3, c)
}
'''),
dict(id='s11b-diag-multiply-rows', prop='C11',
 edits=[('diagonal_matrix.go', '''				product[r][c] = dm.data[r] * mat.At(r, c)
''', '''				if v := mat.At(r, c); v != 0 || r != c {
					product[r][c] = dm.data[r] * v
				} else {
					product[r][c] = dm.data[r]
				}
''')],
 needs='multiplying a diagonal matrix with a matrix that has a 0 on its diagonal',
 breaks='that 0 is taken for a 1',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	d, _ := NewDiagonalMatrixFromSlice([]float64{2, 3})
	m, _ := NewArray2DRowRealMatrixFromSlices([][]float64{{0, 1}, {1, 5}}, true)
	if d.Multiply(m).At(0, 0) != 0 {
		t.Fatal("not 0")
	}
}
'''),
]
