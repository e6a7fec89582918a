From 48361efeb48eba65fa35264fc7831075c213d850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:41 +0000
Subject: [PATCH 01/23] fix: Array2DRowRealMatrix.SetRow panics with a slice
 bounds error for every row but the first

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2b2da55..bd2264d 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -707,7 +707,7 @@ func (a2drrm *Array2DRowRealMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
-	copy(a2drrm.data[row][0:row+nCols], array[0:nCols])
+	copy(a2drrm.data[row][0:nCols], array[0:nCols])
 }
 
 func (a2drrm *Array2DRowRealMatrix) RowMatrixAt(row int) RealMatrix {
-- 
2.43.0


From 407200304c47b96358779e67351d5129572f30bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:43 +0000
Subject: [PATCH 02/23] fix: Array2DRowRealMatrix.SetColumnVector drops the
 column index check

---
 array_2d_row_real_matrix.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index bd2264d..de0ee0c 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -795,10 +795,12 @@ func (a2drrm *Array2DRowRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector) {
-	checkColumnIndex(a2drrm, column)
+	if err := checkColumnIndex(a2drrm, column); err != nil {
+		panic(err)
+	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
-		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
+		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 
 	}
 	for i := 0; i < nRows; i++ {
-- 
2.43.0


From 7ba99b832814ecc3aca1372b31bd42407a6adbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:45 +0000
Subject: [PATCH 03/23] fix: OperateVector and PreMultiplyVector dereference
 the failed assertion for other RealVector implementations

---
 array_2d_row_real_matrix.go | 12 ++++++------
 block_real_matrix.go        | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index de0ee0c..4480ef0 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -470,15 +470,15 @@ func (a2drrm *Array2DRowRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
 		for row := 0; row < nRows; row++ {
 			var sum float64
 			for i := 0; i < nCols; i++ {
-				sum += a2drrm.data[row][i] * v.At(i)
+				sum += a2drrm.data[row][i] * vec.At(i)
 			}
 			out[row] = sum
 		}
@@ -500,15 +500,15 @@ func (a2drrm *Array2DRowRealMatrix) PreMultiplyVector(vec RealVector) RealVector
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
 		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += a2drrm.data[i][col] * v.At(i)
+				sum += a2drrm.data[i][col] * vec.At(i)
 			}
 			out[col] = sum
 		}
diff --git a/block_real_matrix.go b/block_real_matrix.go
index 9f8a6c0..505fd24 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -977,8 +977,8 @@ func (brm *BlockRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
@@ -1046,15 +1046,15 @@ func (brm *BlockRealMatrix) PreMultiplyVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
-		out := make([]float64, nCols)
+		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += brm.At(i, col) * v.At(i)
+				sum += brm.At(i, col) * vec.At(i)
 			}
 			out[col] = sum
 		}
-- 
2.43.0


From 8b02fe024872fd93f30eb2e7f8e3d086d2a3b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 04/23] fix: appending a vector of another implementation loses
 the appended entries

---
 array_real_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 66811bc..49bf571 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -140,8 +140,8 @@ func NewArrayRealVectorFromTwoRealVector(v1, v2 RealVector) (*ArrayRealVector, e
         data[i] = v1.At(i)
     }
 
-    for i := l1; i < l2; i++ {
-        data[i] = v2.At(i)
+    for i := 0; i < l2; i++ {
+        data[l1+i] = v2.At(i)
     }
 
     return &ArrayRealVector{data: data}, nil
-- 
2.43.0


From db4c7a5f10b5aeefee467029683ec5855253e5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 05/23] fix: DiagonalMatrix range operations and SubMatrix
 ignore the result of the index checks

---
 diagonal_matrix.go | 27 ++++++++++++++++++---------
 real_matrix.go     |  4 +++-
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 49db089..9d7929d 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -575,10 +575,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		}
 	}
 
-	checkRowIndex(dm, row)
-	checkColumnIndex(dm, column)
-	checkRowIndex(dm, nRows+row-1)
-	checkColumnIndex(dm, nCols+column-1)
+	if err := checkSubMatrixIndex(dm, row, nRows+row-1, column, nCols+column-1); err != nil {
+		panic(err)
+	}
 
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
@@ -588,7 +587,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 }
 
 func (dm *DiagonalMatrix) SubMatrix(startRow, endRow, startColumn, endColumn int) RealMatrix {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	if (endRow - startRow + 1) != (endColumn - startColumn + 1) {
 		panic(dimensionsMismatchSimpleErrorf((endRow - startRow + 1), (endColumn - startColumn + 1)))
 	}
@@ -676,7 +677,9 @@ func (dm *DiagonalMatrix) WalkInRowOrder(visitor RealMatrixPreservingVisitor) fl
 }
 
 func (dm *DiagonalMatrix) WalkInRowOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -699,7 +702,9 @@ func (dm *DiagonalMatrix) WalkInUpdateRowOrder(visitor RealMatrixChangingVisitor
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateRowOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -734,7 +739,9 @@ func (dm *DiagonalMatrix) WalkInColumnOrder(visitor RealMatrixPreservingVisitor)
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
@@ -745,7 +752,9 @@ func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChang
 }
 
 func (dm *DiagonalMatrix) WalkInColumnOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
diff --git a/real_matrix.go b/real_matrix.go
index 6d83661..8a0f825 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -460,7 +460,9 @@ func (drmcv realMatrixChangingVisitorImpl) End() float64 { return 0 }
  * Gets a submatrix. Rows and columns are indicated counting from 0 to n-1.
  */
 func SubMatrix(m RealMatrix, selectedRows, selectedColumns []int) RealMatrix {
-	checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns)
+	if err := checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns); err != nil {
+		panic(err)
+	}
 
 	subMatrix, err := NewRealMatrixWithDimension(len(selectedRows), len(selectedColumns))
 	if err != nil {
-- 
2.43.0


From e55ec328c9465dc2dce7492cb9b6bf22b09f8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 06/23] fix: DiagonalMatrix accepts out of range off-diagonal
 entries

---
 diagonal_matrix.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 9d7929d..a561426 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -200,10 +200,11 @@ func (dm *DiagonalMatrix) At(row, column int) float64 {
 }
 
 func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
+
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] = value
 	} else {
 		if err := dm.ensureZero(value); err != nil {
@@ -213,10 +214,11 @@ func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
 }
 
 func (dm *DiagonalMatrix) AddToEntry(row, column int, increment float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
+
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] += increment
 	} else {
 		if err := dm.ensureZero(increment); err != nil {
@@ -234,11 +236,12 @@ func (dm *DiagonalMatrix) ensureZero(value float64) error {
 }
 
 func (dm *DiagonalMatrix) MultiplyEntry(row, column int, factor float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
+
 	// we don't care about non-diagonal elements for multiplication
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] *= factor
 	}
 }
-- 
2.43.0


From 6181ee3d2e93a541c63f1f1b0eba32679fa93650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 07/23] fix: error messages are malformed or lose their
 arguments

---
 array_real_vector.go |  6 +++---
 error.go             | 21 +++++++++++----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 49bf571..5f7a361 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -613,7 +613,7 @@ func (arv *ArrayRealVector) WalkInUpdateOptimizedOrderBounded(visitor RealVector
 func checkIndex(v RealVector, idx int) error {
     dim := v.Dimension()
     if idx < 0 || idx >= dim {
-        return outOfRangeErrorf(index, float64(idx), 0, float64(dim)-1)
+        return outOfRangeErrorf(index_out_of_range, float64(idx), 0, float64(dim)-1)
     }
 
     return nil
@@ -622,10 +622,10 @@ func checkIndex(v RealVector, idx int) error {
 func checkIndices(v RealVector, start, end int) error {
     dim := v.Dimension()
     if (start < 0) || (start >= dim) {
-        return outOfRangeErrorf(index, float64(start), 0, float64(dim-1))
+        return outOfRangeErrorf(index_out_of_range, float64(start), 0, float64(dim-1))
     }
     if (end < 0) || (end >= dim) {
-        return outOfRangeErrorf(index, float64(end), 0, float64(dim-1))
+        return outOfRangeErrorf(index_out_of_range, float64(end), 0, float64(dim-1))
     }
     if end < start {
         return numberIsTooSmallErrorf(initial_row_after_final_row, float64(end), float64(start), false)
diff --git a/error.go b/error.go
index 760939f..d77fc3f 100644
--- a/error.go
+++ b/error.go
@@ -42,17 +42,18 @@ const (
 	no_data                               = "no data"
 	out_of_range_simple                   = "%v out of [%v, %v] range"
 	index                                 = "index (%v)"
-	number_of_elements_should_be_positive = "number of elements should be positive (%v)"
-	initial_row_after_final_row           = "initial row %v after final row %v"
-	initial_column_after_final_column     = "initial column %v after final column %v"
+	index_out_of_range                    = "index (%v) out of [%v, %v] range"
+	number_of_elements_should_be_positive = "number of elements should be positive (%[1]v)"
+	initial_row_after_final_row           = "initial row %[2]v after final row %[1]v"
+	initial_column_after_final_column     = "initial column %[2]v after final column %[1]v"
 	number_too_small                      = "%v is smaller than the minimum (%v)"
 	number_too_small_bound_excluded       = "%v is smaller than, or equal to, the minimum (%v)"
 	number_too_large                      = "%v is larger than the maximum (%v)"
 	number_too_large_bound_excluded       = "%v is larger than, or equal to, the maximum (%v)"
 	empty_selected_column_index_array     = "empty selected column index array"
 	empty_selected_row_index_array        = "empty selected row index array"
-	row_index                             = "row index (%v)"
-	column_index                          = "column index ((%v)"
+	row_index                             = "row index (%v) out of [%v, %v] range"
+	column_index                          = "column index (%v) out of [%v, %v] range"
 	illegal_state                         = "illegal state"
 	first_rows_not_initialized_yet        = "first %v rows are not initialized yet"
 	first_columns_not_initialized_yet     = "first %v columns are not initialized yet"
@@ -63,12 +64,12 @@ const (
 	non_symmetric_matrix                  = "non symmetric matrix: the difference between entries at (%v,%v) and (%v,%v) is larger than %v"
 	not_positive_definite_matrix          = "not positive definite matrix"
 	array_element                         = "value %v at index %v"
-	not_positive_exponent                 = "invalid exponent %v (must be positive)"
+	not_positive_exponent                 = "invalid exponent %[1]v (must be positive)"
 	singular_matrix                       = "matrix is singular"
 	unsupported_operation                 = "unsupported operation"
 	convergence_failed                    = "convergence failed"
 	max_count_exceeded                    = "maximal count (%d) exceeded"
-	too_large_cutoff_singular_value       = "cutoff singular value is {0}, should be at most {1}"
+	too_large_cutoff_singular_value       = "cutoff singular value is %v, should be at most %v"
 )
 
 type maxIterationError struct {
@@ -85,7 +86,7 @@ func (e maxIterationError) Status() int {
 }
 
 func maxIterationSimpleErrorf(max int) maxIterationError {
-	return maxIterationErrorf(max_count_exceeded, max)
+	return maxIterationErrorf(max_count_exceeded, max, max)
 }
 
 func maxIterationErrorf(pattern string, max int, arguments ...interface{}) maxIterationError {
@@ -491,7 +492,7 @@ func (e mathIllegalNumberError) Argument() float64 {
 
 func mathIllegalNumberErrorf(pattern string, wrong float64, arguments ...interface{}) mathIllegalNumberError {
 	ret := mathIllegalNumberError{argument: wrong}
-	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, wrong, arguments)
+	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, append([]interface{}{wrong}, arguments...)...)
 	return ret
 }
 
@@ -539,7 +540,7 @@ func (e mathError) Error() string {
 	return e.msg
 }
 
-func (e mathError) addMsg(msg string) {
+func (e *mathError) addMsg(msg string) {
 	e.msg += " : " + msg
 }
 
-- 
2.43.0


From 87dda05b14f1e3227698300db10e54343a7be342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 08/23] fix: ULP comparison is asymmetric and tells negative
 from positive zero

---
 utils.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/utils.go b/utils.go
index dc0d844..947cb36 100644
--- a/utils.go
+++ b/utils.go
@@ -22,14 +22,14 @@ import (
 )
 
 const (
-	sgn_mask_float = 0x80000000
+	sgn_mask_float = -1 << 63
 )
 
 var (
 	positive_zero_float64      float64 = 0.0
 	negative_zero_float64      float64 = -positive_zero_float64
-	positive_zero_float64_bits         = math.Float64bits(positive_zero_float64)
-	negative_zero_float64_bits         = math.Float64bits(negative_zero_float64)
+	positive_zero_float64_bits         = int64(math.Float64bits(positive_zero_float64))
+	negative_zero_float64_bits         = int64(math.Float64bits(negative_zero_float64))
 )
 
 func _isSymmetric(matrix RealMatrix, relativeTolerance float64, raiseException bool) bool {
@@ -81,16 +81,20 @@ func equalsWithError(x, y, eps float64) bool {
 
 func equalsWithULP(x, y float64, maxUlps int) bool {
 
-	xInt := math.Float64bits(x)
-	yInt := math.Float64bits(y)
+	xInt := int64(math.Float64bits(x))
+	yInt := int64(math.Float64bits(y))
 
 	var isEqual bool
 	if ((xInt ^ yInt) & sgn_mask_float) == 0 {
 		// number have same sign, there is no risk of overflow
-		isEqual = uint64(math.Abs(float64(xInt-yInt))) <= uint64(maxUlps)
+		delta := xInt - yInt
+		if delta < 0 {
+			delta = -delta
+		}
+		isEqual = delta <= int64(maxUlps)
 	} else {
 		// number have opposite signs, take care of overflow
-		var deltaPlus, deltaMinus uint64
+		var deltaPlus, deltaMinus int64
 		if xInt < yInt {
 			deltaPlus = yInt - positive_zero_float64_bits
 			deltaMinus = xInt - negative_zero_float64_bits
@@ -99,10 +103,10 @@ func equalsWithULP(x, y float64, maxUlps int) bool {
 			deltaMinus = yInt - negative_zero_float64_bits
 		}
 
-		if deltaPlus > uint64(maxUlps) {
+		if deltaPlus > int64(maxUlps) {
 			isEqual = false
 		} else {
-			isEqual = deltaMinus <= (uint64(maxUlps) - deltaPlus)
+			isEqual = deltaMinus <= (int64(maxUlps) - deltaPlus)
 		}
 
 	}
-- 
2.43.0


From 331c5b83f4ef1b37e4cb870cbff36c6a8672a0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 09/23] fix: Projection overwrites the vector it projects onto

---
 real_vector.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/real_vector.go b/real_vector.go
index 5550008..202db36 100644
--- a/real_vector.go
+++ b/real_vector.go
@@ -476,8 +476,9 @@ func Projection(src, dest RealVector) RealVector {
 		panic(mathArithmeticErrorf(zero_norm))
 	}
 
-	dest.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
-	return dest
+	proj := dest.Copy()
+	proj.MapMultiply(VecDotProduct(src, dest) / norm2)
+	return proj
 }
 
 /**
-- 
2.43.0


From ae4f714f5b335c43bb28b4773ee7075efb02d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 10/23] fix: the RRQR solver cannot invert a rectangular matrix

---
 rrqr_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 5499d0e..c924553 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -181,7 +181,7 @@ func (rrqrds *rrqrDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 }
 
 func (rrqrds *rrqrDecompositionSolver) Inverse() RealMatrix {
-	m, err := NewRealIdentityMatrix(rrqrds.rrqrd.P().RowDimension())
+	m, err := NewRealIdentityMatrix(len(rrqrds.qrds.qrd.qrt[0]))
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From d28546eb9d807e9927e4e0d2f0a42e5566d49a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 11/23] fix: the rectangular Cholesky decomposition runs out of
 bounds on a non square matrix

---
 rectangular_cholesky_decomposition.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index 3b02e29..5d4d8c5 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -32,6 +32,10 @@ func NewRectangularCholeskyDecomposition(matrix RealMatrix) (*RectangularCholesk
 }
 
 func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small float64) (*RectangularCholeskyDecomposition, error) {
+	if !IsSquare(matrix) {
+		return nil, nonSquareMatrixSimpleErrorf(matrix.RowDimension(), matrix.ColumnDimension())
+	}
+
 	ans := new(RectangularCholeskyDecomposition)
 	order := matrix.RowDimension()
 	c := matrix.Data()
-- 
2.43.0


From ed3a53aa536a01c2b0a99f487d3e571a4c726043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 12/23] fix: NewSchurTransformer panics instead of returning
 the convergence error

---
 schur_transformer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index dd0d27e..7c39007 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -55,7 +55,9 @@ func NewSchurTransformer(matrix RealMatrix) (*SchurTransformer, error) {
 	ans.matrixP = transformer.P().Data()
 
 	// transform matrix
-	ans.transform()
+	if err := ans.transform(); err != nil {
+		return nil, err
+	}
 	return ans, nil
 }
 
@@ -110,7 +112,7 @@ func (st *SchurTransformer) T() RealMatrix {
 /**
  * Transform original matrix to Schur form.
  */
-func (st *SchurTransformer) transform() {
+func (st *SchurTransformer) transform() error {
 	n := len(st.matrixT)
 
 	// compute matrix norm
@@ -185,7 +187,7 @@ func (st *SchurTransformer) transform() {
 			// stop transformation after too many iterations
 			iteration++
 			if iteration > max_iter_st {
-				panic(maxIterationErrorf(convergence_failed, max_iter_st))
+				return maxIterationErrorf(convergence_failed, max_iter_st)
 			}
 
 			// the initial houseHolder vector for the QR step
@@ -195,6 +197,8 @@ func (st *SchurTransformer) transform() {
 			st.performDoubleQRStep(il, im, iu, shift, hVec)
 		}
 	}
+
+	return nil
 }
 
 /**
-- 
2.43.0


From 47c5c70bfeb722f6868557c93bbb086a7f946a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 13/23] fix: NewEigenDecompositionFromTridiagonal runs out of
 bounds on empty or mismatched diagonals

---
 eigen_decomposition.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 48276f6..7fa88ac 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -102,6 +102,13 @@ func NewEigenDecomposition(matrix RealMatrix) (*EigenDecomposition, error) {
  * matrix.  The Householder matrix is assumed to be the identity matrix.
  */
 func NewEigenDecompositionFromTridiagonal(main, secondary []float64) (*EigenDecomposition, error) {
+	if len(main) == 0 {
+		return nil, noDataErrorSimpleErrorf()
+	}
+	if len(secondary) < len(main)-1 {
+		return nil, dimensionsMismatchSimpleErrorf(len(secondary), len(main)-1)
+	}
+
 	ans := new(EigenDecomposition)
 	ans.isSymmetric = true
 	ans.main = append([]float64{}, main...)
-- 
2.43.0


From c405ca432805456e30722fa08e8b5e3e60db0a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 14/23] fix: matrix constructors panic instead of returning an
 error on empty or ragged rows

---
 array_2d_row_real_matrix.go | 33 +++++++++++++++++----------------
 block_real_matrix.go        | 12 ++++++++++++
 real_matrix.go              |  8 +++++++-
 3 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 4480ef0..2b6602d 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -38,26 +38,27 @@ func NewArray2DRowRealMatrix(rowDimension, columnDimension int) (*Array2DRowReal
 }
 
 func NewArray2DRowRealMatrixFromSlices(data [][]float64, copyArray bool) (*Array2DRowRealMatrix, error) {
+	if data == nil {
+		return nil, invalidArgumentSimpleErrorf()
+	}
+	nRows := len(data)
+	if nRows == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+	nCols := len(data[0])
+	if nCols == 0 {
+		return nil, noDataErrorf(at_least_one_column)
+	}
+	for r := 1; r < nRows; r++ {
+		if len(data[r]) != nCols {
+			return nil, dimensionsMismatchSimpleErrorf(len(data[r]), nCols)
+		}
+	}
+
 	ans := new(Array2DRowRealMatrix)
 	if copyArray {
 		ans.copyIn(data)
 	} else {
-		if data == nil {
-			return nil, invalidArgumentSimpleErrorf()
-		}
-		nRows := len(data)
-		if nRows == 0 {
-			return nil, noDataErrorf(at_least_one_row)
-		}
-		nCols := len(data[0])
-		if nCols == 0 {
-			return nil, noDataErrorf(at_least_one_column)
-		}
-		for r := 1; r < nRows; r++ {
-			if len(data[r]) != nCols {
-				return nil, dimensionsMismatchSimpleErrorf(len(data[r]), nCols)
-			}
-		}
 		ans.data = data
 	}
 
diff --git a/block_real_matrix.go b/block_real_matrix.go
index 505fd24..92dcfe6 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -79,6 +79,18 @@ func NewBlockRealMatrix(rowDimension, columnDimension int) (*BlockRealMatrix, er
 }
 
 func NewBlockRealMatrixFromSlices(rawData [][]float64) (*BlockRealMatrix, error) {
+	if rawData == nil {
+		return nil, invalidArgumentSimpleErrorf()
+	}
+	if len(rawData) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+	for _, row := range rawData {
+		if len(row) != len(rawData[0]) {
+			return nil, dimensionsMismatchSimpleErrorf(len(row), len(rawData[0]))
+		}
+	}
+
 	return NewBlockRealMatrixFromBlockData(len(rawData), len(rawData[0]), toBlocksLayout(rawData))
 }
 
diff --git a/real_matrix.go b/real_matrix.go
index 8a0f825..4b95f59 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -333,7 +333,13 @@ func NewRealMatrixWithDimension(rows, columns int) (RealMatrix, error) {
 }
 
 func NewRealMatrixFromSlices(data [][]float64) (RealMatrix, error) {
-	if data == nil || data[0] == nil {
+	if data == nil {
+		return nil, invalidArgumentSimpleErrorf()
+	}
+	if len(data) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+	if data[0] == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
 
-- 
2.43.0


From ab84a683d3009ae8b850202405db37d0113f4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 15/23] fix: BlockRealMatrix.SetSubMatrix panics with a runtime
 error on an empty array

---
 block_real_matrix.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 92dcfe6..f8e9b23 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -557,6 +557,10 @@ func (brm *BlockRealMatrix) SetSubMatrix(subMatrix [][]float64, row, column int)
 		panic(invalidArgumentSimpleErrorf())
 	}
 
+	if len(subMatrix) == 0 {
+		panic(noDataErrorf(at_least_one_row))
+	}
+
 	refLength := len(subMatrix[0])
 	if refLength == 0 {
 		panic(noDataErrorf(at_least_one_column))
-- 
2.43.0


From 995d07c4ef3eab8aa2414d70b56dbe0776fda840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 16/23] fix: copying a submatrix into an empty destination
 panics with a runtime error

---
 real_matrix.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/real_matrix.go b/real_matrix.go
index 4b95f59..42575bd 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -408,6 +408,9 @@ func CopySubMatrix(m RealMatrix, startRow, endRow, startColumn, endColumn int, d
 
 	rowsCount := endRow + 1 - startRow
 	columnsCount := endColumn + 1 - startColumn
+	if len(destination) == 0 {
+		panic(matrixDimensionMismatchErrorf(0, 0, rowsCount, columnsCount))
+	}
 	if (len(destination) < rowsCount) || (len(destination[0]) < columnsCount) {
 		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), rowsCount, columnsCount))
 	}
@@ -434,6 +437,9 @@ func CopySubMatrixFromIndices(m RealMatrix, selectedRows, selectedColumns []int,
 	}
 
 	nCols := len(selectedColumns)
+	if len(destination) == 0 {
+		panic(matrixDimensionMismatchErrorf(0, 0, len(selectedRows), nCols))
+	}
 	if (len(destination) < len(selectedRows)) || (len(destination[0]) < nCols) {
 		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
 	}
-- 
2.43.0


From 3c78383f0be975a0c4b5ef399ecb01466e4e9ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 17/23] fix: NewArray2DRowRealMatrixFromSlice returns an
 unusable matrix for an empty slice

---
 array_2d_row_real_matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2b6602d..55e90e8 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -72,6 +72,9 @@ func NewArray2DRowRealMatrixFromSlice(v []float64) (*Array2DRowRealMatrix, error
 
 	ans := new(Array2DRowRealMatrix)
 	nRows := len(v)
+	if nRows == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
 	ans.data = make([][]float64, nRows)
 
 	for i := 0; i < nRows; i++ {
-- 
2.43.0


From 05c14ee9756f911afec0f2060df0900f9077c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 18/23] fix: BlockRealMatrix.SetRowVector and SetColumnVector
 dereference nil for other RealVector implementations

---
 block_real_matrix.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index f8e9b23..8dfca21 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -759,8 +759,8 @@ func (brm *BlockRealMatrix) RowVectorAt(row int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetRowVector(row int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetRow(row, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetRow(row, v.DataRef())
 	} else {
 		if err := checkRowIndex(brm, row); err != nil {
 			panic(err)
@@ -800,8 +800,8 @@ func (brm *BlockRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetColumnVector(column int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetColumn(column, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetColumn(column, v.DataRef())
 	} else {
 		if err := checkColumnIndex(brm, column); err != nil {
 			panic(err)
-- 
2.43.0


From 3cd8f2d414ea8eec99d16e3374a2dfc000750c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 19/23] fix: reject block data with the wrong number of blocks

NewBlockRealMatrixFromBlockData panicked with an index error when given too
few blocks and silently kept surplus ones, although it reports malformed
blocks through its error.
---
 block_real_matrix.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 8dfca21..8750c54 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -110,6 +110,10 @@ func NewBlockRealMatrixFromBlockData(rows, columns int, blockData [][]float64) (
 	ans.blockRows = (rows + BLOCK_SIZE - 1) / BLOCK_SIZE
 	ans.blockColumns = (columns + BLOCK_SIZE - 1) / BLOCK_SIZE
 
+	if len(blockData) != ans.blockRows*ans.blockColumns {
+		return nil, dimensionsMismatchSimpleErrorf(len(blockData), ans.blockRows*ans.blockColumns)
+	}
+
 	ans.blocks = blockData
 
 	var index int
-- 
2.43.0


From 4a24d8d28344a8397631863b78e078b997956ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 20/23] fix: report a negative vector size as an error

The sized vector constructors return an error but made a runtime panic of a
negative size.
---
 array_real_vector.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/array_real_vector.go b/array_real_vector.go
index 5f7a361..4458dbe 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -30,6 +30,10 @@ type ArrayRealVector struct {
  * @param size Size of the vector.
  */
 func NewSizedArrayRealVector(size int) (*ArrayRealVector, error) {
+    if size < 0 {
+        return nil, notPositiveErrorf(number_of_elements_should_be_positive, float64(size))
+    }
+
     return &ArrayRealVector{data: make([]float64, size)}, nil
 }
 
@@ -100,6 +104,10 @@ func NewArrayRealVector(d []float64, copyArray bool) (*ArrayRealVector, error) {
  * @param preset All entries will be set with this value.
  */
 func NewSizedArrayRealVectorWithPreset(size int, preset float64) (*ArrayRealVector, error) {
+    if size < 0 {
+        return nil, notPositiveErrorf(number_of_elements_should_be_positive, float64(size))
+    }
+
     ans := &ArrayRealVector{data: make([]float64, size)}
     for i := 0; i < size; i++ {
         ans.data[i] = preset
-- 
2.43.0


From 3c0efccd4b0a7ca2dc3a3d9e208f8dd6777eacdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:59 +0000
Subject: [PATCH 21/23] fix: a dimension of zero is reported as smaller than
 zero

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index d77fc3f..c7bc605 100644
--- a/error.go
+++ b/error.go
@@ -320,7 +320,7 @@ func (e notStrictlyPositiveError) Status() int {
 
 func notStrictlyPositiveErrorf(number float64) notStrictlyPositiveError {
 	ret := notStrictlyPositiveError{}
-	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, true)
+	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, false)
 	return ret
 }
 
-- 
2.43.0


From d7aa0a8d908771f5dffe4b7e6809596cc3256b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 22/23] fix: an exhausted vector iterator panics with a plain
 string

---
 real_vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/real_vector.go b/real_vector.go
index 202db36..c7a37ba 100644
--- a/real_vector.go
+++ b/real_vector.go
@@ -252,7 +252,7 @@ func (ei *entryIteratorImpl) HasNext() bool {
 
 func (ei *entryIteratorImpl) Next() Entry {
 	if ei.idx >= ei.vec.Dimension() {
-		panic("no entry left")
+		panic(mathIllegalStateErrorf("no entry left"))
 	}
 
 	e := &entryImpl{idx: ei.idx, value: ei.vec.At(ei.idx)}
-- 
2.43.0


From 6d4655b5937d9f1d7eb11ff788c4449da0805fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:22 +0000
Subject: [PATCH 23/23] fix: eigenvalue and eigenvector accessors end in a
 runtime fault on an index out of range

---
 eigen_decomposition.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 7fa88ac..9ddae0c 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -237,6 +237,10 @@ func (ed *EigenDecomposition) RealEigenvalues() []float64 {
  * matrix.
  */
 func (ed *EigenDecomposition) RealEigenvalueAt(i int) float64 {
+	if err := ed.checkIndex(i); err != nil {
+		panic(err)
+	}
+
 	return ed.realEigenvalues[i]
 }
 
@@ -253,6 +257,10 @@ func (ed *EigenDecomposition) ImagEigenvalues() []float64 {
  * matrix.
  */
 func (ed *EigenDecomposition) ImagEigenvalue(i int) float64 {
+	if err := ed.checkIndex(i); err != nil {
+		panic(err)
+	}
+
 	return ed.imagEigenvalues[i]
 }
 
@@ -260,9 +268,25 @@ func (ed *EigenDecomposition) ImagEigenvalue(i int) float64 {
  * Gets a copy of the i<sup>th</sup> eigenvector of the original matrix.
  */
 func (ed *EigenDecomposition) EigenvectorAt(i int) RealVector {
+	if err := ed.checkIndex(i); err != nil {
+		panic(err)
+	}
+
 	return ed.eigenvectors[i].Copy()
 }
 
+/**
+ * Checks the index of an eigenvalue and its eigenvector.
+ */
+func (ed *EigenDecomposition) checkIndex(i int) error {
+	n := len(ed.realEigenvalues)
+	if i < 0 || i >= n {
+		return outOfRangeErrorf(index_out_of_range, float64(i), 0, float64(n-1))
+	}
+
+	return nil
+}
+
 /**
  * Computes the determinant of the matrix.
  */
-- 
2.43.0

