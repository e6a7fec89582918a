T = 'import "testing"\n\n'
TM = 'import (\n\t"math"\n\t"testing"\n)\n\n'
seeds = [
dict(id='s13a-order-tolerance', prop='C13',
 edits=[('eigen_decomposition.go', '''			if ed.realEigenvalues[j] > p {''', '''			if ed.realEigenvalues[j]-p > eps_ed {''')],
 needs='eigenvalues that are closer together than 1e-12 and not found in decreasing order',
 breaks='eigenvalues of small or nearly degenerate matrices are not in decreasing order',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	d, err := NewEigenDecompositionFromTridiagonal([]float64{1e-14, 3e-14, 2e-14}, []float64{0, 0})
	if err != nil {
		t.Fatal(err)
	}
	for i := 1; i < 3; i++ {
		if d.RealEigenvalueAt(i) > d.RealEigenvalueAt(i-1) {
			t.Fatal(d.RealEigenvalues())
		}
	}
}
'''),
dict(id='s13b-vectors-kept-when-close', prop='C13',
 edits=[('eigen_decomposition.go', '''			ed.realEigenvalues[k] = ed.realEigenvalues[i]
			ed.realEigenvalues[i] = p
			for j''', '''			gap := p - ed.realEigenvalues[i]
			p0 := math.Abs(p)
			ed.realEigenvalues[k] = ed.realEigenvalues[i]
			ed.realEigenvalues[i] = p
			if gap < eps_ed*p0 {
				// the eigenvectors of equal eigenvalues are interchangeable
				continue
			}
			for j''')],
 needs='eigenvalues that differ by less than 1e-12 of their size',
 breaks='eigenvalues are put in order and their eigenvectors are not',
 demo=TM + '''
func TestVerifDemo(t *testing.T) {
	d, err := NewEigenDecompositionFromTridiagonal([]float64{1, 1 + 1e-14}, []float64{0})
	if err != nil {
		t.Fatal(err)
	}
	if v := d.EigenvectorAt(0); math.Abs(v.At(1)) != 1 {
		t.Fatal(d.RealEigenvalues(), v.At(0), v.At(1))
	}
}
'''),
dict(id='s13c-order-early-exit', prop='C13',
 edits=[('eigen_decomposition.go', '''		if k != i {
			ed.realEigenvalues[k]''', '''		if i > n/2 && k == i && p < -1 && n > 6 {
			// what is left cannot be larger
			break
		}
		if k != i {
			ed.realEigenvalues[k]''')],
 needs='more than six eigenvalues of which the last few are negative and found out of order',
 breaks='the negative eigenvalues at the end stay out of order',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	d, err := NewEigenDecompositionFromTridiagonal([]float64{9, 8, 7, 6, 5, -2, -5, -4, -3}, make([]float64, 8))
	if err != nil {
		t.Fatal(err)
	}
	for i := 1; i < 9; i++ {
		if d.RealEigenvalueAt(i) > d.RealEigenvalueAt(i-1) {
			t.Fatal(d.RealEigenvalues())
		}
	}
}
'''),
dict(id='s13d-window', prop='C13',
 edits=[('eigen_decomposition.go', '''		for j := i + 1; j < n; j++ {
			if ed.realEigenvalues[j] > p {''', '''		last := n
		if n > 32 && n < 64 && i > 0 && i+n/2 < n {
			// eigenvalues are found almost in order
			last = i + n/2
		}
		for j := i + 1; j < last; j++ {
			if ed.realEigenvalues[j] > p {''')],
 needs='33 to 63 eigenvalues, with the second largest in the last places',
 breaks='a late large eigenvalue is not brought forward far enough',
 demo=T + '''
func TestVerifDemo(t *testing.T) {
	m := make([]float64, 40)
	for i := range m {
		m[i] = 50 - float64(i)
	}
	m[39] = 49.5
	d, err := NewEigenDecompositionFromTridiagonal(m, make([]float64, 39))
	if err != nil {
		t.Fatal(err)
	}
	for i := 1; i < 40; i++ {
		if d.RealEigenvalueAt(i) > d.RealEigenvalueAt(i-1) {
			t.Fatal(d.RealEigenvalues())
		}
	}
}
'''),
]
