out=['package linear\n','// C04: operands of incompatible dimensions are rejected before anything changes. (generated by tools/gen04.py)\n']
def spec(name, params, assume, call, pre=''):
    out.append('''func vpSpec_C04_%s(%s) {
%s%s	vpUntouched(func() {
		vpCheck(vpPanics(func() { %s }), "rejected")
	})
}
''' % (name, params, pre, ''.join('\tvpAssume(%s)\n' % a for a in assume), call))
for op in ['Add', 'Subtract']:
    spec(op+'Rows', 'm, o RealMatrix', ['vpRows(m) != vpRows(o)'], 'm.%s(o)' % op)
    spec(op+'Columns', 'm, o RealMatrix', ['vpCols(m) != vpCols(o)'], 'm.%s(o)' % op)
spec('Multiply', 'm, o RealMatrix', ['vpCols(m) != vpRows(o)'], 'm.Multiply(o)')
spec('PreMultiplyMatrix', 'm, n RealMatrix', ['vpRows(m) != vpCols(n)'], 'm.PreMultiplyMatrix(n)')
spec('Operate', 'm RealMatrix, x []float64', ['len(x) != vpCols(m)'], 'm.Operate(x)')
spec('PreMultiply', 'm RealMatrix, x []float64', ['len(x) != vpRows(m)'], 'm.PreMultiply(x)')
spec('OperateVector', 'm RealMatrix, ox RealVector', ['vpVLen(ox) != vpCols(m)'], 'm.OperateVector(ox)')
spec('PreMultiplyVector', 'm RealMatrix, ox RealVector', ['vpVLen(ox) != vpRows(m)'], 'm.PreMultiplyVector(ox)')
for ax, dim, oth in [('Row', 'vpRows', 'vpCols'), ('Column', 'vpCols', 'vpRows')]:
    ok = '0 <= i && i < %s(m)' % dim
    spec('Set'+ax, 'm RealMatrix, i int, x []float64', [ok, 'len(x) != %s(m)' % oth], 'm.Set%s(i, x)' % ax)
    spec('Set'+ax+'Vector', 'm RealMatrix, i int, ox RealVector', [ok, 'vpVLen(ox) != %s(m)' % oth], 'm.Set%sVector(i, ox)' % ax)
    spec('Set'+ax+'MatrixRows', 'm, o RealMatrix, i int', [ok, 'vpRows(o) != %s' % ('1' if ax == 'Row' else 'vpRows(m)')], 'm.Set%sMatrix(i, o)' % ax)
    spec('Set'+ax+'MatrixColumns', 'm, o RealMatrix, i int', [ok, 'vpCols(o) != %s' % ('1' if ax == 'Column' else 'vpCols(m)')], 'm.Set%sMatrix(i, o)' % ax)
spec('SetSubMatrixNone', 'm RealMatrix, i, j int', ['0 <= i && i < vpRows(m) && 0 <= j && j < vpCols(m)'], 'm.SetSubMatrix(nil, i, j)')
spec('SetSubMatrixNoRows', 'm RealMatrix, i, j int', ['0 <= i && i < vpRows(m) && 0 <= j && j < vpCols(m)'], 'm.SetSubMatrix(d, i, j)', pre='\td := make([][]float64, 0)\n')
spec('SetSubMatrixNoColumns', 'm RealMatrix, ragd [][]float64, i, j int', ['0 <= i && i < vpRows(m) && 0 <= j && j < vpCols(m)', 'len(ragd) >= 1', 'len(ragd[0]) == 0'], 'm.SetSubMatrix(ragd, i, j)')
spec('SetSubMatrixRagged', 'm RealMatrix, ragd [][]float64, i, j, k int', ['len(ragd) >= 1', 'len(ragd[0]) >= 1', '0 <= i && i+len(ragd) <= vpRows(m) && 0 <= j && j+len(ragd[0]) <= vpCols(m)', '0 < k && k < len(ragd)', 'len(ragd[k]) != len(ragd[0])'], 'm.SetSubMatrix(ragd, i, j)')
R = '0 <= r0 && r0 <= r1 && r1 < vpRows(o) && 0 <= c0 && c0 <= c1 && c1 < vpCols(o)'
P = 'o RealMatrix, r0, r1, c0, c1 int, d [][]float64'
spec('CopySubMatrixFewRows', P, [R, 'len(d) < r1-r0+1'], 'CopySubMatrix(o, r0, r1, c0, c1, d)')
spec('CopySubMatrixFewColumns', P, [R, 'len(d) >= 1', 'len(d[0]) < c1-c0+1'], 'CopySubMatrix(o, r0, r1, c0, c1, d)')
spec('CopySubMatrixIndicesFewRows', 'o RealMatrix, rs, cs []int, d [][]float64', ['len(rs) >= 1', 'len(cs) >= 1', 'len(d) < len(rs)'], 'CopySubMatrixFromIndices(o, rs, cs, d)')
spec('CopySubMatrixIndicesFewColumns', 'o RealMatrix, rs, cs []int, d [][]float64', ['len(rs) >= 1', 'len(cs) >= 1', 'len(d) >= 1', 'len(d[0]) < len(cs)'], 'CopySubMatrixFromIndices(o, rs, cs, d)')
spec('Trace', 'm RealMatrix', ['vpRows(m) != vpCols(m)'], 'm.Trace()')
spec('PowerShape', 'o RealMatrix, p int', ['vpRows(o) != vpCols(o)', 'p >= 0'], 'Power(o, p)')
spec('PowerNegative', 'o RealMatrix, p int', ['vpRows(o) == vpCols(o)', 'p < 0'], 'Power(o, p)')
for op in ['Add', 'Subtract', 'EBEMultiply', 'EBEDivide', 'CopyFrom']:
    spec('V'+op, 'v, ow RealVector', ['vpVLen(v) != vpVLen(ow)'], 'v.%s(ow)' % op)
spec('VCombine', 'v, ow RealVector, a, b float64', ['vpVLen(v) != vpVLen(ow)'], 'v.Combine(a, b, ow)')
for op in ['VecDotProduct', 'VecDistance', 'VecL1Distance', 'VecLInfDistance']:
    spec(op, 'ov, ow RealVector', ['vpVLen(ov) != vpVLen(ow)'], '%s(ov, ow)' % op)
open('/verif/lincheck/spec/c04.go.txt','w').write('\n'.join(out))
