out=['package linear\n','// C03: indices outside the matrix or vector are rejected before anything changes. (generated by tools/gen03.py)\n']
def spec(name, params, assume, call, pre=''):
    out.append('''func vpSpec_C03_%s(%s) {
%s%s	vpUntouched(func() {
		vpCheck(vpPanics(func() { %s }), "rejected")
	})
}
''' % (name, params, pre, ''.join('\tvpAssume(%s)\n' % a for a in assume), call))
for nm, bad in [('RowLow', ['i < 0']), ('RowHigh', ['i >= vpRows(m)']), ('ColLow', ['0 <= i && i < vpRows(m)', 'j < 0']), ('ColHigh', ['0 <= i && i < vpRows(m)', 'j >= vpCols(m)'])]:
    spec('At'+nm, 'm RealMatrix, i, j int', bad, 'm.At(i, j)')
    spec('SetEntry'+nm, 'm RealMatrix, i, j int, x float64', bad, 'm.SetEntry(i, j, x)')
    spec('AddToEntry'+nm, 'm RealMatrix, i, j int, x float64', bad, 'm.AddToEntry(i, j, x)')
    spec('MultiplyEntry'+nm, 'm RealMatrix, i, j int, x float64', bad, 'm.MultiplyEntry(i, j, x)')
for nm, bad in [('Low', 'i < 0'), ('High', 'i >= %s(m)')]:
    for ax, dim, oth in [('Row', 'vpRows', 'vpCols'), ('Column', 'vpCols', 'vpRows')]:
        b = bad % dim if '%' in bad else bad
        spec('%sAt%s' % (ax, nm), 'm RealMatrix, i int', [b], 'm.%sAt(i)' % ax)
        spec('%sVectorAt%s' % (ax, nm), 'm RealMatrix, i int', [b], 'm.%sVectorAt(i)' % ax)
        spec('%sMatrixAt%s' % (ax, nm), 'm RealMatrix, i int', [b], 'm.%sMatrixAt(i)' % ax)
        spec('Set%s%s' % (ax, nm), 'm RealMatrix, i int, x []float64', ['len(x) == %s(m)' % oth, b], 'm.Set%s(i, x)' % ax)
        spec('Set%sVector%s' % (ax, nm), 'm RealMatrix, ox RealVector, i int', ['vpVLen(ox) == %s(m)' % oth, b], 'm.Set%sVector(i, ox)' % ax)
        sh = ['vpRows(o) == 1', 'vpCols(o) == vpCols(m)'] if ax == 'Row' else ['vpRows(o) == vpRows(m)', 'vpCols(o) == 1']
        spec('Set%sMatrix%s' % (ax, nm), 'm, o RealMatrix, i int', sh + [b], 'm.Set%sMatrix(i, o)' % ax)
# bounded regions
good = {'r0': '0 <= r0 && r0 <= r1', 'r1': 'r1 < vpRows(m)', 'c0': '0 <= c0 && c0 <= c1', 'c1': 'c1 < vpCols(m)'}
regs = [('StartRowLow', ['r0 < 0 && r0 <= r1', 'r1', 'c0', 'c1']), ('EndRowHigh', ['r0', 'r1 >= vpRows(m) && r0 < vpRows(m)', 'c0', 'c1']),
        ('RowsReversed', ['0 <= r1 && r1 < r0 && r0 < vpRows(m)', 'c0', 'c1']),
        ('StartColumnLow', ['r0', 'r1', 'c0 < 0 && c0 <= c1', 'c1']), ('EndColumnHigh', ['r0', 'r1', 'c0', 'c1 >= vpCols(m) && c0 < vpCols(m)']),
        ('ColumnsReversed', ['r0', 'r1', '0 <= c1 && c1 < c0 && c0 < vpCols(m)'])]
P = 'm RealMatrix, r0, r1, c0, c1 int'
walks = ['RowOrder', 'ColumnOrder', 'OptimizedOrder']
for nm, bad in regs:
    b = [good.get(x, x) for x in bad]
    oP = P.replace('m RealMatrix', 'o RealMatrix')
    spec('SubMatrix'+nm, P, b, 'm.SubMatrix(r0, r1, c0, c1)')
    spec('CopySubMatrix'+nm, oP + ', d [][]float64', [x.replace('(m)', '(o)') for x in b] + ['len(d) >= 1'], 'CopySubMatrix(o, r0, r1, c0, c1, d)')
    for w in walks:
        spec('Walk%s%s' % (w, nm), P + ', v RealMatrixPreservingVisitor', b, 'm.WalkIn%sBounded(v, r0, r1, c0, c1)' % w)
        spec('WalkUpdate%s%s' % (w, nm), P + ', v RealMatrixChangingVisitor', b, 'm.WalkInUpdate%sBounded(v, r0, r1, c0, c1)' % w)
for nm, bad in [('RowLow', ['i < 0', '0 <= j && j + len(d[0]) <= vpCols(m)']), ('RowHigh', ['0 <= i && i + len(d) > vpRows(m)', '0 <= j && j + len(d[0]) <= vpCols(m)']),
                ('ColLow', ['0 <= i && i + len(d) <= vpRows(m)', 'j < 0']), ('ColHigh', ['0 <= i && i + len(d) <= vpRows(m)', '0 <= j && j + len(d[0]) > vpCols(m)'])]:
    spec('SetSubMatrix'+nm, 'm RealMatrix, d [][]float64, i, j int', ['len(d) >= 1', 'len(d[0]) >= 1'] + bad, 'm.SetSubMatrix(d, i, j)')
for nm, b in [('RowLow', 'rs[k] < 0'), ('RowHigh', 'rs[k] >= vpRows(o)')]:
    spec('SubMatrixIndices'+nm, 'o RealMatrix, rs, cs []int, k int', ['len(cs) >= 1', '0 <= k && k < len(rs)', b], 'SubMatrix(o, rs, cs)')
    spec('CopySubMatrixIndices'+nm, 'o RealMatrix, rs, cs []int, k int, d [][]float64', ['len(cs) >= 1', '0 <= k && k < len(rs)', b], 'CopySubMatrixFromIndices(o, rs, cs, d)')
for nm, b in [('ColLow', 'cs[k] < 0'), ('ColHigh', 'cs[k] >= vpCols(o)')]:
    spec('SubMatrixIndices'+nm, 'o RealMatrix, rs, cs []int, k int', ['len(rs) >= 1', '0 <= k && k < len(cs)', b], 'SubMatrix(o, rs, cs)')
    spec('CopySubMatrixIndices'+nm, 'o RealMatrix, rs, cs []int, k int, d [][]float64', ['len(rs) >= 1', '0 <= k && k < len(cs)', b], 'CopySubMatrixFromIndices(o, rs, cs, d)')
spec('SubMatrixIndicesNone', 'o RealMatrix, rs, cs []int', ['len(rs) == 0 || len(cs) == 0'], 'SubMatrix(o, rs, cs)')
# vectors
for nm, b in [('Low', 'i < 0'), ('High', 'i >= vpVLen(v)')]:
    spec('VAt'+nm, 'v RealVector, i int', [b], 'v.At(i)')
    spec('VSetEntry'+nm, 'v RealVector, i int, x float64', [b], 'v.SetEntry(i, x)')
    spec('VAddToEntry'+nm, 'v RealVector, i int, x float64', [b], 'v.AddToEntry(i, x)')
spec('VSubVectorLow', 'v RealVector, i, n int', ['n >= 1', 'i < 0'], 'v.SubVector(i, n)')
spec('VSubVectorHigh', 'v RealVector, i, n int', ['n >= 1', 'i >= 0', 'i + n > vpVLen(v)'], 'v.SubVector(i, n)')
spec('VSubVectorNegative', 'v RealVector, i, n int', ['n < 0', '0 <= i && i < vpVLen(v)'], 'v.SubVector(i, n)')
spec('VSetSubVectorLow', 'v, ow RealVector, i int', ['i < 0', 'vpVLen(ow) >= 1'], 'v.SetSubVector(i, ow)')
spec('VSetSubVectorHigh', 'v, ow RealVector, i int', ['i >= 0', 'i + vpVLen(ow) > vpVLen(v)', 'vpVLen(ow) >= 1'], 'v.SetSubVector(i, ow)')
spec('VSetSubVectorWithSliceLow', 'v *ArrayRealVector, w []float64, i int', ['i < 0', 'len(w) >= 1'], 'v.SetSubVectorWithSlice(i, w)')
spec('VSetSubVectorWithSliceHigh', 'v *ArrayRealVector, w []float64, i int', ['i >= 0', 'i + len(w) > vpVLen(v)', 'len(w) >= 1'], 'v.SetSubVectorWithSlice(i, w)')
for nm, b in [('StartLow', 'r0 < 0 && r0 <= r1 && r1 < vpVLen(v)'), ('EndHigh', '0 <= r0 && r0 < vpVLen(v) && r1 >= vpVLen(v)'), ('Reversed', '0 <= r1 && r1 < r0 && r0 < vpVLen(v)')]:
    for w in ['DefaultOrder', 'OptimizedOrder']:
        spec('VWalk%s%s' % (w, nm), 'v RealVector, t RealVectorPreservingVisitor, r0, r1 int', [b], 'v.WalkIn%sBounded(t, r0, r1)' % w)
        spec('VWalkUpdate%s%s' % (w, nm), 'v RealVector, t RealVectorChangingVisitor, r0, r1 int', [b], 'v.WalkInUpdate%sBounded(t, r0, r1)' % w)
for nm, b in [('Low', 'i < 0'), ('High', 'i >= n')]:
    for f in ['RealEigenvalueAt', 'ImagEigenvalue', 'EigenvectorAt']:
        out.append("""
func vpSpec_C03_%s%s(main, secondary []float64, i int) {
	n := len(main)
	vpAssume(n >= 1 && n*n <= 4096 && len(secondary) == n-1)
	vpAssume(%s)
	var d *EigenDecomposition
	var err error
	vpGeneric(func() { d, err = NewEigenDecompositionFromTridiagonal(main, secondary) })
	vpAssume(err == nil)
	vpCheck(vpPanics(func() { d.%s(i) }), "rejected")
}""" % (f, nm, b, f))
open('/verif/lincheck/spec/c03.go.txt','w').write('\n'.join(out))
