out=['''package linear

// C20: the value an operation panics with, or the error it returns, is a library error of the
// status that names the cause and carries the offending and the permitted values. (generated by tools/gen20.py)

type vpRangeErr interface {
	LinearMathError
	Argument() float64
	Low() float64
	High() float64
}

type vpSmallErr interface {
	LinearMathError
	Argument() float64
	Min() float64
}

type vpMatDimErr interface {
	LinearMathError
	WrongRowDimension() int
	WrongColumnDimension() int
	ExpectedRowDimension() int
	ExpectedColumnDimension() int
}

type vpDimsErr interface {
	LinearMathError
	WrongDimension(index int) int
	ExpectedDimension(index int) int
	WrongDimensions() []int
	ExpectedDimensions() []int
}

type vpArgErr interface {
	LinearMathError
	Argument() float64
}

func vpStatus(e interface{}, status int) {
	le, ok := e.(LinearMathError)
	vpCheck(ok, "a library error")
	if ok {
		vpCheck(le.Status() == status, "the status names the cause")
	}
}

func vpRange(e interface{}, arg, n int) {
	vpStatus(e, ERANGE)
	re, ok := e.(vpRangeErr)
	vpCheck(ok, "a range error with its argument and bounds")
	if ok {
		vpSame(re.Argument(), float64(arg), "the rejected index")
		vpSame(re.Low(), 0.0, "the lower bound")
		vpSame(re.High(), float64(n-1), "the upper bound")
	}
}

func vpReversed(e interface{}, end, start int) {
	vpStatus(e, ENSMALL)
	re, ok := e.(vpSmallErr)
	vpCheck(ok, "a too small error with its argument and minimum")
	if ok {
		vpSame(re.Argument(), float64(end), "the rejected end")
		vpSame(re.Min(), float64(start), "the start it has to reach")
	}
}

func vpMatDim(e interface{}, wr, wc, er, ec int) {
	vpStatus(e, EMATDIM)
	re, ok := e.(vpMatDimErr)
	vpCheck(ok, "a matrix dimension error with both shapes")
	if ok {
		vpSame(re.WrongRowDimension(), wr, "the wrong number of rows")
		vpSame(re.WrongColumnDimension(), wc, "the wrong number of columns")
		vpSame(re.ExpectedRowDimension(), er, "the expected number of rows")
		vpSame(re.ExpectedColumnDimension(), ec, "the expected number of columns")
	}
	de, ok := e.(vpDimsErr)
	vpCheck(ok, "a dimension error with both lists of dimensions")
	if ok {
		vpSame(de.WrongDimension(0), wr, "the first wrong dimension")
		vpSame(de.WrongDimension(1), wc, "the second wrong dimension")
		vpSame(de.ExpectedDimension(0), er, "the first expected dimension")
		vpSame(de.ExpectedDimension(1), ec, "the second expected dimension")
		vpCheck(len(de.WrongDimensions()) == 2 && len(de.ExpectedDimensions()) == 2, "two dimensions each")
	}
}

func vpDim(e interface{}, wrong int) {
	vpStatus(e, EDIM)
	re, ok := e.(vpArgErr)
	vpCheck(ok, "a dimension error with its argument")
	if ok {
		vpSame(re.Argument(), float64(wrong), "the wrong dimension")
	}
}

func vpArg(e interface{}, status int, arg float64) {
	vpStatus(e, status)
	re, ok := e.(vpArgErr)
	vpCheck(ok, "an error with its argument")
	if ok {
		vpSame(re.Argument(), arg, "the rejected number")
	}
}
''']
def spec(name, params, assume, call, expect, pre=''):
    out.append('''func vpSpec_C20_%s(%s) {
%s%s	%s
}
''' % (name, params, pre, ''.join('\tvpAssume(%s)\n' % a for a in assume), expect.replace('E,', 'vpPanicked(func() { %s }),' % call)))
for nm, bad, arg, dim in [('Row', ['i < 0 || i >= vpRows(m)'], 'i', 'vpRows(m)'), ('Column', ['0 <= i && i < vpRows(m)', 'j < 0 || j >= vpCols(m)'], 'j', 'vpCols(m)')]:
    ex = 'vpRange(E, %s, %s)' % (arg, dim)
    spec('At'+nm, 'm RealMatrix, i, j int', bad, 'm.At(i, j)', ex)
    # a diagonal matrix may refuse the write itself first when the position is off its diagonal
    for op in ['SetEntry', 'AddToEntry']:
        spec(op+nm, 'm RealMatrix, i, j int, x float64', bad, 'm.%s(i, j, x)' % op, ex)
    spec('MultiplyEntry'+nm, 'm RealMatrix, i, j int, x float64', bad, 'm.MultiplyEntry(i, j, x)', ex)
for ax, dim, oth in [('Row', 'vpRows', 'vpCols'), ('Column', 'vpCols', 'vpRows')]:
    b = 'i < 0 || i >= %s(m)' % dim
    ex = 'vpRange(E, i, %s(m))' % dim
    spec('%sAt' % ax, 'm RealMatrix, i int', [b], 'm.%sAt(i)' % ax, ex)
    spec('%sVectorAt' % ax, 'm RealMatrix, i int', [b], 'm.%sVectorAt(i)' % ax, ex)
    spec('%sMatrixAt' % ax, 'm RealMatrix, i int', [b], 'm.%sMatrixAt(i)' % ax, ex)
    spec('Set%s' % ax, 'm RealMatrix, i int, x []float64', ['len(x) == %s(m)' % oth, b], 'm.Set%s(i, x)' % ax, ex)
    spec('Set%sVector' % ax, 'm RealMatrix, ox RealVector, i int', ['vpVLen(ox) == %s(m)' % oth, b], 'm.Set%sVector(i, ox)' % ax, ex)
    sh = ['vpRows(o) == 1', 'vpCols(o) == vpCols(m)'] if ax == 'Row' else ['vpRows(o) == vpRows(m)', 'vpCols(o) == 1']
    spec('Set%sMatrix' % ax, 'm, o RealMatrix, i int', sh + [b], 'm.Set%sMatrix(i, o)' % ax, ex)
    ok = '0 <= i && i < %s(m)' % dim
    exp = ('1, vpCols(m)', '1, len(x)', '1, vpVLen(ox)') if ax == 'Row' else ('vpRows(m), 1', 'len(x), 1', 'vpVLen(ox), 1')
    spec('Set'+ax+'Length', 'm RealMatrix, i int, x []float64', [ok, 'len(x) != %s(m)' % oth], 'm.Set%s(i, x)' % ax, 'vpMatDim(E, %s, %s)' % (exp[1], exp[0]))
    spec('Set'+ax+'VectorLength', 'm RealMatrix, i int, ox RealVector', [ok, 'vpVLen(ox) != %s(m)' % oth], 'm.Set%sVector(i, ox)' % ax, 'vpMatDim(E, %s, %s)' % (exp[2], exp[0]))
    spec('Set'+ax+'MatrixShape', 'm, o RealMatrix, i int', [ok, 'vpRows(o) != %s || vpCols(o) != %s' % (('1', 'vpCols(m)') if ax == 'Row' else ('vpRows(m)', '1'))], 'm.Set%sMatrix(i, o)' % ax,
         'vpMatDim(E, vpRows(o), vpCols(o), %s)' % exp[0])
# bounded regions
good = {'r0': '0 <= r0 && r0 <= r1', 'r1': 'r1 < vpRows(m)', 'c0': '0 <= c0 && c0 <= c1', 'c1': 'c1 < vpCols(m)'}
regs = [('StartRow', ['(r0 < 0 || r0 >= vpRows(m)) && 0 <= r1 && r1 < vpRows(m)', 'c0', 'c1'], 'vpRange(E, r0, vpRows(m))'), ('EndRow', ['r1 < 0 || r1 >= vpRows(m)', '0 <= r0 && r0 < vpRows(m)', 'c0', 'c1'], 'vpRange(E, r1, vpRows(m))'),
        ('RowsReversed', ['0 <= r1 && r1 < r0 && r0 < vpRows(m)', 'c0', 'c1'], 'vpReversed(E, r1, r0)'),
        ('StartColumn', ['r0', 'r1', '(c0 < 0 || c0 >= vpCols(m)) && 0 <= c1 && c1 < vpCols(m)'], 'vpRange(E, c0, vpCols(m))'), ('EndColumn', ['r0', 'r1', 'c1 < 0 || c1 >= vpCols(m)', '0 <= c0 && c0 < vpCols(m)'], 'vpRange(E, c1, vpCols(m))'),
        ('ColumnsReversed', ['r0', 'r1', '0 <= c1 && c1 < c0 && c0 < vpCols(m)'], 'vpReversed(E, c1, c0)')]
P = 'm RealMatrix, r0, r1, c0, c1 int'
walks = ['RowOrder', 'ColumnOrder', 'OptimizedOrder']
for nm, bad, ex in regs:
    b = [good.get(x, x) for x in bad]
    oP = P.replace('m RealMatrix', 'o RealMatrix')
    spec('SubMatrix'+nm, P, b, 'm.SubMatrix(r0, r1, c0, c1)', ex)
    spec('CopySubMatrix'+nm, oP + ', d [][]float64', [x.replace('(m)', '(o)') for x in b] + ['len(d) >= 1'], 'CopySubMatrix(o, r0, r1, c0, c1, d)', ex.replace('(m)', '(o)'))
    for w in walks:
        spec('Walk%s%s' % (w, nm), P + ', v RealMatrixPreservingVisitor', b, 'm.WalkIn%sBounded(v, r0, r1, c0, c1)' % w, ex)
        spec('WalkUpdate%s%s' % (w, nm), P + ', v RealMatrixChangingVisitor', b, 'm.WalkInUpdate%sBounded(v, r0, r1, c0, c1)' % w, ex)
spec('SetSubMatrixRow', 'm RealMatrix, d [][]float64, i, j int', ['len(d) >= 1', 'len(d[0]) >= 1', 'i < 0 || i >= vpRows(m)', '0 <= j && j + len(d[0]) <= vpCols(m)'], 'm.SetSubMatrix(d, i, j)', 'vpRange(E, i, vpRows(m))')
spec('SetSubMatrixColumn', 'm RealMatrix, d [][]float64, i, j int', ['len(d) >= 1', 'len(d[0]) >= 1', 'j < 0 || j >= vpCols(m)', '0 <= i && i + len(d) <= vpRows(m)'], 'm.SetSubMatrix(d, i, j)', 'vpRange(E, j, vpCols(m))')
spec('SetSubMatrixRowEnd', 'm RealMatrix, d [][]float64, i, j int', ['len(d) >= 1', 'len(d[0]) >= 1', '0 <= i && i < vpRows(m) && i + len(d) > vpRows(m)', '0 <= j && j + len(d[0]) <= vpCols(m)'], 'm.SetSubMatrix(d, i, j)', 'vpRange(E, i + len(d) - 1, vpRows(m))')
spec('SetSubMatrixColumnEnd', 'm RealMatrix, d [][]float64, i, j int', ['len(d) >= 1', 'len(d[0]) >= 1', '0 <= j && j < vpCols(m) && j + len(d[0]) > vpCols(m)', '0 <= i && i + len(d) <= vpRows(m)'], 'm.SetSubMatrix(d, i, j)', 'vpRange(E, j + len(d[0]) - 1, vpCols(m))')
spec('SetSubMatrixNil', 'm RealMatrix, i, j int', ['0 <= i && i < vpRows(m) && 0 <= j && j < vpCols(m)'], 'm.SetSubMatrix(nil, i, j)', 'vpStatus(E, EINV)')
spec('SetSubMatrixNoRows', 'm RealMatrix, i, j int', ['0 <= i && i < vpRows(m) && 0 <= j && j < vpCols(m)'], 'm.SetSubMatrix(d, i, j)', 'vpStatus(E, ENODAT)', pre='\td := make([][]float64, 0)\n')
spec('SetSubMatrixNoColumns', 'm RealMatrix, ragd [][]float64, i, j int', ['0 <= i && i < vpRows(m) && 0 <= j && j < vpCols(m)', 'len(ragd) >= 1', 'len(ragd[0]) == 0'], 'm.SetSubMatrix(ragd, i, j)', 'vpStatus(E, ENODAT)')
spec('SetSubMatrixRagged', 'm RealMatrix, ragd [][]float64, i, j int', ['len(ragd) == 2', 'len(ragd[0]) >= 1', '0 <= i && i+len(ragd) <= vpRows(m) && 0 <= j && j+len(ragd[0]) <= vpCols(m)', 'len(ragd[1]) != len(ragd[0])'], 'm.SetSubMatrix(ragd, i, j)', 'vpStatus(E, EDIM)')
for fn, P, c in [('SubMatrixIndices', 'o RealMatrix, rs, cs []int', 'SubMatrix(o, rs, cs)'), ('CopySubMatrixIndices', 'o RealMatrix, rs, cs []int, d [][]float64', 'CopySubMatrixFromIndices(o, rs, cs, d)')]:
    if fn == 'SubMatrixIndices':
        for nm, b in [('Low', '%s[0] < 0'), ('High', '%s[0] >= %s(o)')]:
            bb = lambda x, y: b % ((x, y) if 'High' in nm else x)
            spec(fn+'Row'+nm, P, ['len(cs) >= 1', 'len(rs) == 1', bb('rs', 'vpRows')], c, 'vpRange(E, rs[0], vpRows(o))')
            spec(fn+'Column'+nm, P, ['len(cs) == 1', 'len(rs) == 1', '0 <= rs[0] && rs[0] < vpRows(o)', bb('cs', 'vpCols')], c, 'vpRange(E, cs[0], vpCols(o))')
    spec(fn+'NoRows', P, ['len(cs) >= 1', 'len(rs) == 0', 'rs != nil'], c, 'vpStatus(E, ENODAT)')
    spec(fn+'NoColumns', P, ['len(rs) >= 1', 'len(cs) == 0', 'cs != nil'], c, 'vpStatus(E, ENODAT)')
    spec(fn+'NilRows', P.replace('rs, ', ''), ['len(cs) >= 1'], c.replace('rs', 'nil'), 'vpStatus(E, EINV)')
    spec(fn+'NilColumns', P.replace(', cs', ''), ['len(rs) >= 1'], c.replace('cs', 'nil'), 'vpStatus(E, EINV)')
R = '0 <= r0 && r0 <= r1 && r1 < vpRows(o) && 0 <= c0 && c0 <= c1 && c1 < vpCols(o)'
P = 'o RealMatrix, r0, r1, c0, c1 int, d [][]float64'
spec('CopySubMatrixNone', 'o RealMatrix, r0, r1, c0, c1 int', [R], 'CopySubMatrix(o, r0, r1, c0, c1, nil)', 'vpMatDim(E, 0, 0, r1-r0+1, c1-c0+1)')
spec('CopySubMatrixDestination', P, [R, 'len(d) >= 1', 'len(d) < r1-r0+1 || len(d[0]) < c1-c0+1'], 'CopySubMatrix(o, r0, r1, c0, c1, d)', 'vpMatDim(E, len(d), len(d[0]), r1-r0+1, c1-c0+1)')
spec('CopySubMatrixIndicesDestination', 'o RealMatrix, rs, cs []int, d [][]float64', ['len(rs) == 1 && 0 <= rs[0] && rs[0] < vpRows(o)', 'len(cs) == 1 && 0 <= cs[0] && cs[0] < vpCols(o)', 'len(d) == 0'], 'CopySubMatrixFromIndices(o, rs, cs, d)', 'vpMatDim(E, 0, 0, 1, 1)')
# combinations of operands
for op in ['Add', 'Subtract']:
    spec(op+'Shape', 'm, o RealMatrix', ['vpRows(m) != vpRows(o) || vpCols(m) != vpCols(o)'], 'm.%s(o)' % op, 'vpMatDim(E, vpRows(m), vpCols(m), vpRows(o), vpCols(o))')
spec('MultiplyShape', 'm, o RealMatrix', ['vpCols(m) != vpRows(o)'], 'm.Multiply(o)', 'vpDim(E, vpCols(m))')
spec('PreMultiplyMatrixShape', 'm, n RealMatrix', ['vpRows(m) != vpCols(n)'], 'm.PreMultiplyMatrix(n)', 'vpDim(E, vpCols(n))')
for K, T in [('', 'RealMatrix'), ('A', '*Array2DRowRealMatrix'), ('B', '*BlockRealMatrix')]:
    dim = (lambda n: 'vpDim(E, %s)' % n) if K else (lambda n: 'vpStatus(E, EDIM)')
    spec('OperateShape'+K, 'm %s, x []float64' % T, ['len(x) != vpCols(m)'], 'm.Operate(x)', dim('len(x)'))
    spec('PreMultiplyShape'+K, 'm %s, x []float64' % T, ['len(x) != vpRows(m)'], 'm.PreMultiply(x)', dim('len(x)'))
    spec('OperateVectorShape'+K, 'm %s, ox RealVector' % T, ['vpVLen(ox) != vpCols(m)'], 'm.OperateVector(ox)', dim('vpVLen(ox)'))
    spec('PreMultiplyVectorShape'+K, 'm %s, ox RealVector' % T, ['vpVLen(ox) != vpRows(m)'], 'm.PreMultiplyVector(ox)', dim('vpVLen(ox)'))
spec('Trace', 'm RealMatrix', ['vpRows(m) != vpCols(m)'], 'm.Trace()', 'vpArg(E, ESQMAT, float64(vpRows(m)))')
spec('PowerShape', 'o RealMatrix, p int', ['vpRows(o) != vpCols(o)', 'p >= 0'], 'Power(o, p)', 'vpArg(E, ESQMAT, float64(vpRows(o)))')
spec('PowerNegative', 'o RealMatrix, p int', ['vpRows(o) == vpCols(o)', 'p < 0'], 'Power(o, p)', 'vpArg(E, ENOTPOS, float64(p))')
spec('DiagonalSingular', 'm *DiagonalMatrix', ['m.IsSingular(0)'], 'm.Inverse()', 'vpStatus(E, ESING)')
spec('DiagonalSingularThreshold', 'm *DiagonalMatrix, t float64', ['t >= 0', 'm.IsSingular(t)'], 'm.InverseWithThreshold(t)', 'vpStatus(E, ESING)')
# vectors
bad = 'i < 0 || i >= vpVLen(v)'
ex = 'vpRange(E, i, vpVLen(v))'
spec('VAt', 'v RealVector, i int', [bad], 'v.At(i)', ex)
spec('VSetEntry', 'v RealVector, i int, x float64', [bad], 'v.SetEntry(i, x)', ex)
spec('VAddToEntry', 'v RealVector, i int, x float64', [bad], 'v.AddToEntry(i, x)', ex)
spec('VSubVector', 'v RealVector, i, n int', ['n >= 1', 'i < 0 || i >= vpVLen(v)'], 'v.SubVector(i, n)', ex)
spec('VSubVectorEnd', 'v RealVector, i, n int', ['n >= 1', '0 <= i && i < vpVLen(v)', 'i + n > vpVLen(v)'], 'v.SubVector(i, n)', 'vpRange(E, i + n - 1, vpVLen(v))')
spec('VSubVectorNegative', 'v RealVector, i, n int', ['n < 0', '0 <= i && i < vpVLen(v)'], 'v.SubVector(i, n)', 'vpArg(E, ENOTPOS, float64(n))')
spec('VSetSubVector', 'v, ow RealVector, i int', ['vpVLen(ow) >= 1', 'i < 0 || i >= vpVLen(v)'], 'v.SetSubVector(i, ow)', ex)
spec('VSetSubVectorEnd', 'v, ow RealVector, i int', ['0 <= i && i < vpVLen(v)', 'i + vpVLen(ow) > vpVLen(v)', 'vpVLen(ow) >= 1'], 'v.SetSubVector(i, ow)', 'vpRange(E, i + vpVLen(ow) - 1, vpVLen(v))')
for nm, b, ex in [('Start', '(r0 < 0 || r0 >= vpVLen(v)) && 0 <= r1 && r1 < vpVLen(v)', 'vpRange(E, r0, vpVLen(v))'), ('End', '0 <= r0 && r0 < vpVLen(v) && (r1 < 0 || r1 >= vpVLen(v))', 'vpRange(E, r1, vpVLen(v))'),
              ('Reversed', '0 <= r1 && r1 < r0 && r0 < vpVLen(v)', 'vpReversed(E, r1, r0)')]:
    for w in ['DefaultOrder', 'OptimizedOrder']:
        spec('VWalk%s%s' % (w, nm), 'v RealVector, t RealVectorPreservingVisitor, r0, r1 int', [b], 'v.WalkIn%sBounded(t, r0, r1)' % w, ex)
        spec('VWalkUpdate%s%s' % (w, nm), 'v RealVector, t RealVectorChangingVisitor, r0, r1 int', [b], 'v.WalkInUpdate%sBounded(t, r0, r1)' % w, ex)
for op in ['Add', 'Subtract', 'EBEMultiply', 'EBEDivide', 'CopyFrom']:
    spec('V'+op, 'v, ow RealVector', ['vpVLen(v) != vpVLen(ow)'], 'v.%s(ow)' % op, 'vpDim(E, vpVLen(v))')
spec('VCombine', 'v, ow RealVector, a, b float64', ['vpVLen(v) != vpVLen(ow)'], 'v.Combine(a, b, ow)', 'vpDim(E, vpVLen(v))')
for op in ['VecDotProduct', 'VecDistance', 'VecL1Distance', 'VecLInfDistance']:
    spec(op, 'ov, ow RealVector', ['vpVLen(ov) != vpVLen(ow)'], '%s(ov, ow)' % op, 'vpDim(E, vpVLen(ov))')

def raw(s): out.append(s.strip('\n') + '\n')
def err(name, params, assume, call, expect, nres=2):
    out.append('''func vpSpec_C20_%s(%s) {
%s	%s
}
''' % (name, params, ''.join('\tvpAssume(%s)\n' % a for a in assume), expect.replace('E,', 'vpErr(func() error { _, err := %s; return err }),' % call)))
# constructors of matrices and vectors
for nm, f in [('Dim', 'NewRealMatrixWithDimension'), ('Array', 'NewArray2DRowRealMatrix'), ('Block', 'NewBlockRealMatrix')]:
    err('New%sRows' % nm, 'r, c int', ['r < 1', 'c >= 1'], f + '(r, c)', 'vpArg(E, ENOTSPOS, float64(r))')
    err('New%sColumns' % nm, 'r, c int', ['c < 1', 'r >= 1'], f + '(r, c)', 'vpArg(E, ENOTSPOS, float64(c))')
    err('New%sBound' % nm, 'r, c int', ['r < 1', 'c >= 1'], f + '(r, c)', 'vpBound(E, false)')
err('NewDiagonal', 'n int', ['n < 1'], 'NewDiagonalMatrixWithDimension(n)', 'vpArg(E, ENOTSPOS, float64(n))')
err('NewIdentity', 'n int', ['n < 1'], 'NewRealIdentityMatrix(n)', 'vpArg(E, ENOTSPOS, float64(n))')
err('NewArrayNil', '', [], 'NewArray2DRowRealMatrixFromSlices(nil, true)', 'vpStatus(E, EINV)')
err('NewBlockNil', '', [], 'NewBlockRealMatrixFromSlices(nil)', 'vpStatus(E, EINV)')
err('NewDiagonalNil', '', [], 'NewDiagonalMatrixFromSlice(nil)', 'vpStatus(E, EINV)')
err('NewVectorSize', 'n int', ['n < 0'], 'NewSizedArrayRealVector(n)', 'vpArg(E, ENOTPOS, float64(n))')
err('NewVectorPreset', 'n int, x float64', ['n < 0'], 'NewSizedArrayRealVectorWithPreset(n, x)', 'vpArg(E, ENOTPOS, float64(n))')
# decompositions of matrices that are not square
for f, args in [('NewLUDecomposition', 'o'), ('NewDefaultCholeskyDecomposition', 'o'), ('NewRectangularCholeskyDecomposition', 'o'), ('NewEigenDecomposition', 'o'), ('NewTriDiagonalTransformer', 'o'), ('NewHessenbergTransformer', 'o'), ('NewSchurTransformer', 'o')]:
    err(f[3:] + 'NotSquare', 'o RealMatrix', ['vpRows(o) != vpCols(o)'], f + '(o)', 'vpArg(E, ESQMAT, float64(vpRows(o)))')
err('TridiagonalNone', 'main, secondary []float64', ['len(main) == 0'], 'NewEigenDecompositionFromTridiagonal(main, secondary)', 'vpStatus(E, ENODAT)')
err('TridiagonalShort', 'main, secondary []float64', ['len(main) >= 1', 'len(secondary) < len(main)-1'], 'NewEigenDecompositionFromTridiagonal(main, secondary)', 'vpDim(E, len(secondary))')
raw('''
type vpBoundErr interface {
	LinearMathError
	IsBoundAllowed() bool
}

func vpBound(e interface{}, allowed bool) {
	be, ok := e.(vpBoundErr)
	vpCheck(ok, "an error with a bound")
	if ok {
		vpCheck(be.IsBoundAllowed() == allowed, "whether the bound itself is allowed")
	}
}

type vpSymErr interface {
	LinearMathError
	Row() int
	Column() int
	Threshold() float64
}

func vpSpec_C20_CholeskyNotSymmetric(m *Array2DRowRealMatrix, s, t float64) {
	vpAssume(vpRows(m) == 2 && vpCols(m) == 2 && s >= 0)
	a, b := vpAt(m, 0, 1), vpAt(m, 1, 0)
	vpAssume(math.Abs(a-b) > s*math.Max(math.Abs(a), math.Abs(b)))
	e := vpErr(func() error { _, err := NewCholeskyDecomposition(m, s, t); return err })
	vpStatus(e, ESYMM)
	se, ok := e.(vpSymErr)
	vpCheck(ok, "a symmetry error with position and threshold")
	if ok {
		vpCheck(se.Row() == 0 && se.Column() == 1, "the position")
		vpSame(se.Threshold(), s, "the threshold")
	}
}

func vpSpec_C20_CholeskyNotPositive(m *Array2DRowRealMatrix, s, t float64) {
	vpAssume(vpRows(m) == 1 && vpCols(m) == 1 && t >= 0)
	vpAssume(vpAt(m, 0, 0) <= t)
	e := vpErr(func() error { _, err := NewCholeskyDecomposition(m, s, t); return err })
	vpArg(e, ENSMALL, vpAt(m, 0, 0))
	se, ok := e.(vpSymErr)
	vpCheck(ok, "a definiteness error with position and threshold")
	if ok {
		vpCheck(se.Row() == 0 && se.Column() == 0, "the position")
		vpSame(se.Threshold(), t, "the threshold")
	}
}

func vpSpec_C20_UnitZero(v RealVector, i int) {
	vpAssume(vpVLen(v) == 1 && vpVAt(v, 0) == 0)
	vpStatus(vpPanicked(func() { v.Unitize() }), EARITH)
}

func vpSpec_C20_UnitVectorZero(ov RealVector, i int) {
	vpAssume(vpVLen(ov) == 1 && vpVAt(ov, 0) == 0)
	vpStatus(vpPanicked(func() { UnitVector(ov) }), EARITH)
}

func vpSpec_C20_DiagonalOff(m *DiagonalMatrix, i, j int, x float64) {
	vpAssume(0 <= i && i < vpRows(m) && 0 <= j && j < vpRows(m) && i != j)
	vpAssume(math.Abs(x) > 1)
	vpArg(vpPanicked(func() { m.SetEntry(i, j, x) }), ENBIG, math.Abs(x))
	vpArg(vpPanicked(func() { m.AddToEntry(i, j, x) }), ENBIG, math.Abs(x))
}
''')
for nm, b in [('Low', 'i < 0'), ('High', 'i >= n')]:
    for f in ['RealEigenvalueAt', 'ImagEigenvalue', 'EigenvectorAt']:
        out.append("""
func vpSpec_C20_%s%s(main, secondary []float64, i int) {
	n := len(main)
	vpAssume(n >= 1 && n*n <= 4096 && len(secondary) == n-1)
	vpAssume(%s)
	var d *EigenDecomposition
	var err error
	vpGeneric(func() { d, err = NewEigenDecompositionFromTridiagonal(main, secondary) })
	vpAssume(err == nil)
	vpRange(vpPanicked(func() { d.%s(i) }), i, n)
}
""" % (f, nm, b, f))
SOLVERS = [('LU', 'm *Array2DRowRealMatrix, t float64', 'n == vpCols(m)', 'LUDecomposition', 'NewLUDecompositionWithThreshold(m, t)', True),
           ('QR', 'm *Array2DRowRealMatrix, t float64', 'n*vpCols(m) <= 4096 && vpCols(m) >= 1', 'QRDecomposition', 'NewQRDecompositionWithThreshold(m, t)', True),
           ('RRQR', 'm *Array2DRowRealMatrix, t float64', 'n*vpCols(m) <= 4096 && vpCols(m) >= 1 && vpCols(m)*vpCols(m) <= 4096', 'RRQRDecomposition', 'NewRRQRDecompositionWithThreshold(m, t)', True),
           ('Cholesky', 'm *Array2DRowRealMatrix, u, t float64', 'n == vpCols(m)', 'CholeskyDecomposition', 'NewCholeskyDecomposition(m, u, t)', False),
           ('Eigen', 'main, secondary []float64', 'len(secondary) == n-1', 'EigenDecomposition', 'NewEigenDecompositionFromTridiagonal(main, secondary)', True)]
for nm, par, cond, typ, ctor, sing in SOLVERS:
    pre = """	n := %s
	vpAssume(%s && n >= 1 && n*n <= 4096)
	var d *%s
	var err error
	vpGeneric(func() { d, err = %s })
	vpAssume(err == nil)
""" % ('len(main)' if nm == 'Eigen' else 'vpRows(m)', cond, typ, ctor)
    if nm == 'Eigen':
        pre += '\tvpAssume(!d.HasComplexEigenvalues())\n'
    pre += '\ts := d.Solver()\n'
    out.append("""
func vpSpec_C20_%sSolveOther(%s, ov RealVector, ob RealMatrix) {
%s	if vpVLen(ov) != n {
		vpArg(vpPanicked(func() { s.SolveVector(ov) }), EDIM, float64(vpVLen(ov)))
	}
	if vpRows(ob) != n && vpRows(ob) >= 1 && vpCols(ob) >= 1 {
		vpArg(vpPanicked(func() { s.SolveMatrix(ob) }), EDIM, float64(vpRows(ob)))
	}
}
""" % (nm, par, pre))
    if sing:
        out.append("""
func vpSpec_C20_%sSolveSingular(%s, ov RealVector, ob RealMatrix) {
%s	vpAssume(!s.IsNonSingular())
	vpAssume(vpVLen(ov) == n && vpRows(ob) == n && vpCols(ob) >= 1)
	vpStatus(vpPanicked(func() { s.SolveVector(ov) }), ESING)
	vpStatus(vpPanicked(func() { s.SolveMatrix(ob) }), ESING)
	vpStatus(vpPanicked(func() { s.Inverse() }), ESING)
}
""" % (nm, par, pre))
out.append("""
func vpSpec_C20_EigenComplexSolver(m *Array2DRowRealMatrix) {
	n := vpRows(m)
	vpAssume(n == vpCols(m) && n >= 1 && n*n <= 4096)
	var d *EigenDecomposition
	var err error
	vpGeneric(func() { d, err = NewEigenDecomposition(m) })
	vpAssume(err == nil && d.HasComplexEigenvalues())
	vpStatus(vpPanicked(func() { d.Solver() }), EUNSUP)
}

func vpSpec_C20_EigenNoConvergence(main, secondary []float64) {
	n := len(main)
	vpAssume(n >= 1 && n*n <= 4096 && len(secondary) == n-1)
	var err error
	vpGeneric(func() { _, err = NewEigenDecompositionFromTridiagonal(main, secondary) })
	vpAssume(err != nil)
	vpStatus(err, EMAXITER)
}

func vpSpec_C20_SchurNoConvergence(m *Array2DRowRealMatrix) {
	n := vpRows(m)
	vpAssume(n >= 1 && n*n <= 4096 && vpCols(m) == n)
	var err error
	vpGeneric(func() { _, err = NewSchurTransformer(m) })
	vpAssume(err != nil)
	vpStatus(err, EMAXITER)
}

func vpSpec_C20_EigenRootNotPositive(main, secondary []float64, k int) {
	n := len(main)
	vpAssume(n >= 1 && n*n <= 4096 && len(secondary) == n-1)
	var d *EigenDecomposition
	var err error
	vpGeneric(func() { d, err = NewEigenDecompositionFromTridiagonal(main, secondary) })
	vpAssume(err == nil && 0 <= k && k < n && d.RealEigenvalueAt(k) <= 0)
	vpStatus(vpPanicked(func() { d.SquareRoot() }), EUNSUP)
}

func vpSpec_C20_CovarianceCutoff(m *Array2DRowRealMatrix, c float64) {
	r, n := vpRows(m), vpCols(m)
	vpAssume(r >= 1 && n >= 1 && r*n <= 4096 && r*r <= 4096 && n*n <= 4096)
	var d *SingularValueDecomposition
	var err error
	vpGeneric(func() { d, err = NewSingularValueDecomposition(m) })
	vpAssume(err == nil)
	d.V()
	vpAssume(n == 1 && len(d.SingularValues()) == 1 && d.SingularValues()[0] < c)
	vpArg(vpPanicked(func() { d.Covariance(c) }), ENBIG, c)
}
""")
s = '\n'.join(out).replace('package linear\n', 'package linear\n\nimport "math"\n', 1)
out = [s]
open('/verif/lincheck/spec/c20.go.txt','w').write('\n'.join(out))
