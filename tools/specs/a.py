seeds = [
dict(id='s01-block-subtract-inplace', prop='C01',
 edits=[('block_real_matrix.go', '''						out.blocks[blockIndex][k] = tBlock[k] - mat.At(p, q)
						k++
					}
				}''', '''						tBlock[k] -= mat.At(p, q)
						k++
					}
				}
				copy(out.blocks[blockIndex], tBlock)''')],
 needs='subtracting a matrix of another implementation from a block matrix and reading the block matrix again afterwards',
 breaks='BlockRealMatrix.Subtract overwrites its receiver when the operand is not a BlockRealMatrix',
 demo='''import "testing"

func TestVerifDemo(t *testing.T) {
	a, _ := NewBlockRealMatrix(3, 60)
	a.SetEntry(2, 55, 7)
	b, _ := NewArray2DRowRealMatrix(3, 60)
	b.SetEntry(2, 55, 2)
	c := a.Subtract(b)
	if c.At(2, 55) != 5 {
		t.Fatal("wrong result")
	}
	if a.At(2, 55) != 7 {
		t.Fatalf("receiver changed: %v", a.At(2, 55))
	}
}
'''),
dict(id='s02-subvector-view', prop='C02',
 edits=[('array_real_vector.go', '''    copy(out.data[0:n], arv.data[index:])

    return out''', '''    if n < len(arv.data) {
        copy(out.data[0:n], arv.data[index:])
    } else {
        out.data = arv.data[index:]
    }

    return out''')],
 needs='taking the sub-vector that spans the whole vector, then changing one of the two',
 breaks='SubVector(0, dimension) returns a vector that shares its storage with the receiver',
 demo='''import "testing"

func TestVerifDemo(t *testing.T) {
	v, _ := NewArrayRealVector([]float64{1, 2, 3}, true)
	s := v.SubVector(0, 3)
	s.SetEntry(1, 9)
	if v.At(1) != 2 {
		t.Fatal("the sub-vector is a view")
	}
}
'''),
dict(id='s03-block-add-assert', prop='C12',
 edits=[('block_real_matrix.go', '''	if m, ok := mat.(*BlockRealMatrix); ok {
		// perform addition block-wise, to ensure good cache behavior
		for blockIndex := 0; blockIndex < len(out.blocks); blockIndex++ {
			tBlock := brm.blocks[blockIndex]
			mBlock := m.blocks[blockIndex]
			for k := 0; k < len(out.blocks[blockIndex]); k++ {
				out.blocks[blockIndex][k] = tBlock[k] + mBlock[k]''', '''	m, ok := mat.(*BlockRealMatrix)
	if ok || brm.rows*brm.columns > 4096 {
		// matrices of this size are built block-wise
		for blockIndex := 0; blockIndex < len(out.blocks); blockIndex++ {
			tBlock := brm.blocks[blockIndex]
			mBlock := m.blocks[blockIndex]
			for k := 0; k < len(out.blocks[blockIndex]); k++ {
				out.blocks[blockIndex][k] = tBlock[k] + mBlock[k]''')],
 needs='adding a large matrix that is not a BlockRealMatrix to a block matrix',
 breaks='BlockRealMatrix.Add dereferences a failed assertion for large operands of another implementation',
 demo='''import "testing"

func TestVerifDemo(t *testing.T) {
	a, _ := NewBlockRealMatrix(70, 70)
	b, _ := NewArray2DRowRealMatrix(70, 70)
	b.SetEntry(69, 1, 3)
	if a.Add(b).At(69, 1) != 3 {
		t.Fatal("wrong sum")
	}
}
'''),
dict(id='s04-svd-solver-state', prop='C18',
 edits=[('singular_value_decomposition.go', '''	for dimension < p && svd.singularValues[dimension] >= minSingularValue {
		dimension++
	}
''', '''	for dimension < p && svd.singularValues[dimension] >= minSingularValue {
		dimension++
	}
	// the values below the cutoff take no part in the pseudo inverse either
	if dimension > 0 && dimension < p {
		svd.tol = math.Max(svd.tol, svd.singularValues[dimension])
	}
''')],
 needs='asking for a truncated covariance and then for the rank or a solver of the same decomposition',
 breaks='Covariance changes the tolerance of the decomposition, so that later answers depend on the calls made before',
 demo='''import "testing"

func TestVerifDemo(t *testing.T) {
	m, _ := NewArray2DRowRealMatrixFromSlices([][]float64{{4, 0, 0}, {0, 2, 0}, {0, 0, 1}}, true)
	svd, err := NewSingularValueDecomposition(m)
	if err != nil {
		t.Fatal(err)
	}
	r := svd.Rank()
	svd.Covariance(3)
	if svd.Rank() != r {
		t.Fatalf("rank was %d and is now %d", r, svd.Rank())
	}
}
'''),
dict(id='s05-norm-shared-visitor', prop='C24',
 edits=[('real_matrix.go', '''type frobeniusNormPreservingVisitorImpl struct {
	sum float64
}
''', '''type frobeniusNormPreservingVisitorImpl struct {
	sum float64
}

// one accumulator serves every norm
var frobeniusVisitor = new(frobeniusNormPreservingVisitorImpl)
'''), ('real_matrix.go', 'm.WalkInOptimizedOrder(new(frobeniusNormPreservingVisitorImpl))', 'm.WalkInOptimizedOrder(frobeniusVisitor)')],
 needs='a second norm computed while the first one is under way (another goroutine, or an entry of a lazy matrix that uses a norm)',
 breaks='MatFrobeniusNorm keeps its accumulator in a package-level variable',
 demo='''import "testing"

type lazyMatrix struct {
	*Array2DRowRealMatrix
	inner RealMatrix
}

func (l lazyMatrix) WalkInOptimizedOrder(v RealMatrixPreservingVisitor) float64 {
	v.Start(1, 2, 0, 0, 0, 1)
	v.Visit(0, 0, 3)
	v.Visit(0, 1, MatFrobeniusNorm(l.inner))
	return v.End()
}

func TestVerifDemo(t *testing.T) {
	one, _ := NewArray2DRowRealMatrixFromSlices([][]float64{{4}}, true)
	if n := MatFrobeniusNorm(lazyMatrix{one, one}); n != 5 {
		t.Fatalf("norm %v", n)
	}
}
'''),
]
