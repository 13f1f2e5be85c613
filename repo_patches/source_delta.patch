From 91baf0a1dccebd6804bf08d859ebc37868c424f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 01/30] fix: refuse negative matrix indices instead of
 panicking

---
 matrix.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matrix.go b/matrix.go
index a425764..a575bf4 100644
--- a/matrix.go
+++ b/matrix.go
@@ -81,7 +81,7 @@ func (m *Matrix) Get(row int, col int) (float64, error) {
 	// Get the value of matrix[row][col].
 
 	// Check that the value exists.
-	if row >= m.Rows || col >= m.Cols {
+	if row < 0 || row >= m.Rows || col < 0 || col >= m.Cols {
 		return 0, invalidMatrixIndexError(row, col)
 	}
 
@@ -94,7 +94,7 @@ func (m *Matrix) Set(row int, col int, value float64) error {
 	// Set the value at matrix[row][col].
 
         // Check that the value exists.
-        if row >= m.Rows || col >= m.Cols {
+        if row < 0 || row >= m.Rows || col < 0 || col >= m.Cols {
                 return invalidMatrixIndexError(row, col)
         }
 
@@ -109,7 +109,7 @@ func (m *Matrix) GetRow(row int) ([]float64, error) {
 	// Get the values of row 'row'.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return nil, invalidMatrixIndexError(row, -1)
 	}
 
@@ -122,7 +122,7 @@ func (m *Matrix) GetColumn(col int) ([]float64, error) {
         // Get the values of column col.
 
         // Check that the column exists.
-        if col >= m.Cols {
+        if col < 0 || col >= m.Cols {
                 return nil, invalidMatrixIndexError(-1, col)
         }
 
@@ -141,7 +141,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	// Set the row 'row' to values.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return invalidMatrixIndexError(row, -1)
 	}
 
@@ -161,7 +161,7 @@ func (m *Matrix) SetColumn(col int, values []float64) error {
 	// Set the column col to values.
 
 	// Check that the column exists.
-	if col >= m.Cols {
+	if col < 0 || col >= m.Cols {
 		return invalidMatrixIndexError(-1, col)
 	}
 
-- 
2.43.0


From fcf22bfad607dcff834612ee99c71ebf6daf28a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 02/30] fix: SetRow copies the values instead of keeping the
 caller's slice

---
 matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index a575bf4..a5b0f3d 100644
--- a/matrix.go
+++ b/matrix.go
@@ -151,7 +151,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	}
 
 	// Insert the row.
-	m.M[row] = values
+	copy(m.M[row], values)
 
 	return nil
 }
-- 
2.43.0


From 70e1503522ae08ec635ad3923c78a824447079d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 03/30] fix: NewMatrixFromSlice refuses rows of different
 lengths

---
 matrix.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matrix.go b/matrix.go
index a5b0f3d..08a1046 100644
--- a/matrix.go
+++ b/matrix.go
@@ -67,6 +67,11 @@ func NewMatrixFromSlice(slice [][]float64) (Matrix, error) {
 	if cols < 1 {
 		return Matrix{}, invalidMatrixDimensionsError(rows, cols)
 	}
+	for i := 1; i < rows; i++ {
+		if len(slice[i]) != cols {
+			return Matrix{}, invalidSliceDimensionsError(len(slice[i]))
+		}
+	}
 
 	// Create a new matrix given the size.
 	return Matrix {
-- 
2.43.0


From 9dc7fa974ec386f07d4d67b7344ed7a92d574e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 04/30] fix: RowMax finds the largest value of rows with no
 positive value

---
 misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index 887b5fd..952b117 100644
--- a/misc.go
+++ b/misc.go
@@ -39,7 +39,7 @@ func RowMax(X Matrix) Matrix {
 	// Loop over the matrix, getting the largest value.
 	for i := 0; i < X.Rows; i++ {
 		var largest int
-		var largestValue float64
+		largestValue := X.M[i][0]
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] > largestValue {
 				largest = j
-- 
2.43.0


From 06e05a819445f8ff37255ba101d302c1b0234d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 05/30] fix: SparseToOneHot returns an error for labels out of
 range

---
 misc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc.go b/misc.go
index 952b117..84e4d64 100644
--- a/misc.go
+++ b/misc.go
@@ -23,6 +23,9 @@ func SparseToOneHot(X Matrix, size int) (Matrix, error) {
 
 	// Loop over the matrix, transforming each sparse vector into one-hot vectors.
 	for i := 0; i < X.Rows; i++ {
+		if !(X.M[i][0] >= 0 && X.M[i][0] < float64(size)) {
+			return Matrix{}, errors.New("nn.SparseToOneHot: Label out of range.")
+		}
 		ans.M[i][int(X.M[i][0])] = 1
 	}
 
-- 
2.43.0


From 35a1263efe00912f59115b9a61dba303dcce6bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 06/30] fix: OutputBinaryValues no longer overwrites the matrix
 it is given

---
 matrix.go | 11 +++++++++++
 misc.go   |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/matrix.go b/matrix.go
index 08a1046..6ef6933 100644
--- a/matrix.go
+++ b/matrix.go
@@ -81,6 +81,17 @@ func NewMatrixFromSlice(slice [][]float64) (Matrix, error) {
 	}, nil
 }
 
+// Matrix copy function.
+func (m *Matrix) copy() Matrix {
+	// Create a matrix with the same values and its own storage.
+	ans := Matrix{Rows: m.Rows, Cols: m.Cols, M: make([][]float64, len(m.M))}
+	for i := range m.M {
+		ans.M[i] = append([]float64(nil), m.M[i]...)
+	}
+
+	return ans
+}
+
 // Matrix get function.
 func (m *Matrix) Get(row int, col int) (float64, error) {
 	// Get the value of matrix[row][col].
diff --git a/misc.go b/misc.go
index 84e4d64..10d0230 100644
--- a/misc.go
+++ b/misc.go
@@ -61,6 +61,9 @@ func RowMax(X Matrix) Matrix {
 
 // Return the output values for binary categorization.
 func OutputBinaryValues(X Matrix) Matrix {
+	// Leave the values of the given matrix as they are.
+	X = X.copy()
+
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] < 0.5 {
-- 
2.43.0


From 25481781fdda6f7ade288aa2afb3777c65e2cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 07/30] fix: Clip no longer overwrites the predictions it is
 given

---
 matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matrix.go b/matrix.go
index 6ef6933..c42b905 100644
--- a/matrix.go
+++ b/matrix.go
@@ -417,6 +417,9 @@ func (m *Matrix) Sum(axis int) Matrix {
 
 
 func Clip(X Matrix) Matrix {
+	// Leave the values of the given matrix as they are.
+	X = X.copy()
+
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] < 0 {
-- 
2.43.0


From b5af91938b5de5846b9160d8dfe99acb34e2f512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 08/30] fix: Clip keeps values away from exactly 0 and 1

---
 matrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix.go b/matrix.go
index c42b905..8085ab0 100644
--- a/matrix.go
+++ b/matrix.go
@@ -422,9 +422,9 @@ func Clip(X Matrix) Matrix {
 
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
-			if X.M[i][j] < 0 {
+			if X.M[i][j] < 1e-7 {
 				X.M[i][j] = float64(1e-7)
-			} else if X.M[i][j] > 1 {
+			} else if X.M[i][j] > 1 - 1e-7 {
 				X.M[i][j] = float64(1 - 1e-7)
 			}
 		}
-- 
2.43.0


From 330468a432bbbe0ecb7aefd99ac654c57ca08d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 09/30] fix: the cross-entropy gradient is finite for
 predictions of exactly 0

---
 loss.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/loss.go b/loss.go
index c70b4f3..7128339 100644
--- a/loss.go
+++ b/loss.go
@@ -262,11 +262,14 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                 }
         }
 
+        // Clip the predicted values.
+        clipped := Clip(yhat)
+
         // Calculate the gradient of the cross-entropy loss function.
 	dInputs, _ := NewMatrix(yhat.Rows, yhat.Cols)
         for i := 0; i < dInputs.Rows; i++ {
                 for j := 0; j < dInputs.Cols; j++ {
-                        dInputs.M[i][j] = (-y.M[i][j]/yhat.M[i][j])/float64(yhat.Rows)
+                        dInputs.M[i][j] = (-y.M[i][j]/clipped.M[i][j])/float64(yhat.Rows)
                 }
         }
 
-- 
2.43.0


From be7b30d042cf8622d33adf592431b8c871bd176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 10/30] fix: Softmax no longer overflows for large inputs

---
 activation.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/activation.go b/activation.go
index bd4aae3..b9d6612 100644
--- a/activation.go
+++ b/activation.go
@@ -101,8 +101,12 @@ func Softmax(m Matrix) Matrix {
 	for i := 0; i < m.Rows; i++ {
 		// Calculate the sum of the row and divide by it.
 		sum := float64(0)
+		largest := math.Inf(-1)
 		for j := 0; j < m.Cols; j++ {
-			m.M[i][j] = math.Exp(m.M[i][j])
+			largest = math.Max(largest, m.M[i][j])
+		}
+		for j := 0; j < m.Cols; j++ {
+			m.M[i][j] = math.Exp(m.M[i][j] - largest)
 			sum += m.M[i][j]
 		}
 		for j := 0; j < m.Cols; j++ {
-- 
2.43.0


From 2aaefcd8da9667ae31428014139aaa1059753b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:49 +0000
Subject: [PATCH 11/30] fix: the squared loss and its gradient average over the
 whole batch

---
 loss.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/loss.go b/loss.go
index 7128339..017c4f5 100644
--- a/loss.go
+++ b/loss.go
@@ -68,11 +68,14 @@ func (loss *MeanSquaredLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
 		return 0, err
 	}
 
-	for i := 0; i < sub.Cols; i++ {
-		sub.M[0][i] = math.Pow(sub.M[0][i], 2)
+	// Average over all the samples of the batch.
+	out := float64(0)
+	for i := 0; i < sub.Rows; i++ {
+		for j := 0; j < sub.Cols; j++ {
+			out += math.Pow(sub.M[i][j], 2)
+		}
 	}
-
-	out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+	out = out / float64(sub.Rows * sub.Cols)
 
 	return out, nil
 }
@@ -94,7 +97,7 @@ func (loss *MeanSquaredLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	if err != nil {
 		return Matrix{}, err
 	}
-	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size))
+	dInputs = dInputs.MulScalar(float64(2) / float64(yhat.Rows * loss.Size))
 
 	// Return the final gradient.
 	return dInputs, nil
-- 
2.43.0


From c103304506acf1e1778af682760c9493eef0d450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 12/30] fix: the absolute loss averages over the whole batch,
 its gradient is no longer zero

---
 loss.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/loss.go b/loss.go
index 017c4f5..8e54b0e 100644
--- a/loss.go
+++ b/loss.go
@@ -148,11 +148,14 @@ func (loss *MeanAbsoluteLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                 return 0, err
         }
 
-        for i := 0; i < sub.Cols; i++ {
-                sub.M[0][i] = math.Abs(sub.M[0][i])
+        // Average over all the samples of the batch.
+        out := float64(0)
+        for i := 0; i < sub.Rows; i++ {
+                for j := 0; j < sub.Cols; j++ {
+                        out += math.Abs(sub.M[i][j])
+                }
         }
-
-        out := sub.Sum(1).M[0][0] / float64(sub.Cols)
+        out = out / float64(sub.Rows * sub.Cols)
 
         return out, nil
 }
@@ -177,9 +180,9 @@ func (loss *MeanAbsoluteLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	for i := 0; i < dInputs.Rows; i++ {
 		for j := 0; j < dInputs.Cols; j++ {
 			if dInputs.M[i][j] > 0 {
-				dInputs.M[i][j] = float64(1/dInputs.Cols)
+				dInputs.M[i][j] = float64(1) / float64(dInputs.Rows * dInputs.Cols)
 			} else if dInputs.M[i][j] < 0 {
-				dInputs.M[i][j] = float64(-1/dInputs.Cols)
+				dInputs.M[i][j] = float64(-1) / float64(dInputs.Rows * dInputs.Cols)
 			} else {
 				dInputs.M[i][j] = 0
 			}
-- 
2.43.0


From 56b738d251aeb8251285ce95b63cff49edee010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 13/30] fix: the entropy losses refuse labels with a different
 number of rows

---
 loss.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/loss.go b/loss.go
index 8e54b0e..bb0e6ed 100644
--- a/loss.go
+++ b/loss.go
@@ -223,11 +223,11 @@ func NewCrossEntropyLoss(size int) (CrossEntropyLoss, error) {
 // Cross-entropy loss forward pass function.
 func (loss *CrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
         // Check that all the dimensions match up.
-        if yhat.Cols != loss.Size || y.Cols != loss.Size {
+        if yhat.Cols != loss.Size || y.Cols != loss.Size || yhat.Rows != y.Rows {
                 // Find which matrix has incorrect dimensions and return an error.
                 if yhat.Cols != loss.Size {
                         return 0, invalidMatrixDimensionsError(yhat.Rows, yhat.Cols)
-                } else if y.Cols != loss.Size {
+                } else {
                         return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
@@ -259,11 +259,11 @@ func (loss *CrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
 // Cross-entropy loss backward pass function.
 func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	// Check that all the dimensions match up.
-        if yhat.Cols != loss.Size || y.Cols != loss.Size {
+        if yhat.Cols != loss.Size || y.Cols != loss.Size || yhat.Rows != y.Rows {
                 // Find which matrix has incorrect dimensions and return an error.
                 if yhat.Cols != loss.Size {
                         return Matrix{}, invalidMatrixDimensionsError(yhat.Rows, yhat.Cols)
-                } else if y.Cols != loss.Size {
+                } else {
                         return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
@@ -313,11 +313,11 @@ func NewBinaryCrossEntropyLoss(size int) (BinaryCrossEntropyLoss, error) {
 // Binary cross-entropy loss forward pass function.
 func (loss *BinaryCrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
         // Check that all the dimensions match up.
-        if yhat.Cols != loss.Size || y.Cols != loss.Size {
+        if yhat.Cols != loss.Size || y.Cols != loss.Size || yhat.Rows != y.Rows {
                 // Find which matrix has incorrect dimensions and return an error.
                 if yhat.Cols != loss.Size {
                         return 0, invalidMatrixDimensionsError(yhat.Rows, yhat.Cols)
-                } else if y.Cols != loss.Size {
+                } else {
                         return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
@@ -340,11 +340,11 @@ func (loss *BinaryCrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, err
 // Cross-entropy loss backward pass function.
 func (loss *BinaryCrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
         // Check that all the dimensions match up.
-        if yhat.Cols != loss.Size || y.Cols != loss.Size {
+        if yhat.Cols != loss.Size || y.Cols != loss.Size || yhat.Rows != y.Rows {
                 // Find which matrix has incorrect dimensions and return an error.
                 if yhat.Cols != loss.Size {
                         return Matrix{}, invalidMatrixDimensionsError(yhat.Rows, yhat.Cols)
-                } else if y.Cols != loss.Size {
+                } else {
                         return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
                 }
         }
-- 
2.43.0


From 0770be482f771abbfbedd154690885d60964ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 14/30] fix: the sigmoid layer differentiates at its
 pre-activations and keeps its input

---
 network.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 7d66ff1..6397d26 100644
--- a/network.go
+++ b/network.go
@@ -260,6 +260,7 @@ type SigmoidLayer struct {
         OutputSize int
         Weights    *Matrix
         Biases     *Matrix
+	inputs     Matrix
 }
 
 // Create a new sigmoid layer.
@@ -332,6 +333,9 @@ func (l *SigmoidLayer) Forward(x Matrix) (Matrix, error) {
                 }
         }
 
+	// Save the sigmoid inputs.
+	l.inputs = out.copy()
+
 	// Add the sigmoid activation function.
 	out = Sigmoid(out)
 
@@ -349,8 +353,12 @@ func (l *SigmoidLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
 
+        if l.inputs.Rows != dValues.Rows || l.inputs.Cols != dValues.Cols {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+        }
+
         // Calculate the gradients on the sigmoid activation function.
-        dValues = SigmoidPrime(x, dValues)
+        dValues = SigmoidPrime(l.inputs.copy(), dValues)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
-- 
2.43.0


From 2a72246888bd3e12ac4544f33116b7dc0d41f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:54 +0000
Subject: [PATCH 15/30] fix: the leaky layer keeps its pre-activations for the
 backward pass

---
 network.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 6397d26..ed1d74b 100644
--- a/network.go
+++ b/network.go
@@ -464,7 +464,7 @@ func (l *LeakyLayer) Forward(x Matrix) (Matrix, error) {
         }
 
 	// Save the RELU inputs.
-	l.reluInputs = out
+	l.reluInputs = out.copy()
 
         // Apply leaky RELU activation for the hidden layer.
         out = LeakyRELU(out, l.Slope)
-- 
2.43.0


From 2ed468ef6772746a003a16a74f2cc4ead0e6952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 16/30] fix: layer backward passes refuse gradients with the
 wrong number of rows

---
 network.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/network.go b/network.go
index ed1d74b..57b98d0 100644
--- a/network.go
+++ b/network.go
@@ -126,6 +126,9 @@ func (l *HiddenLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 	if dValues.Cols != l.OutputSize {
 		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
 	}
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+	}
 
 	// Calculate the gradients on the RELU activation function.
 	dValues = RELUPrime(dValues, l.reluInputs)
@@ -482,6 +485,9 @@ func (l *LeakyLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix,
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+        if l.reluInputs.Rows != dValues.Rows {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+        }
 
         // Calculate the gradients on the leaky RELU activation function.
 	dValues = LeakyRELUPrime(dValues, l.reluInputs, l.Slope)
@@ -844,6 +850,9 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+        if l.reluInputs.Rows != dValues.Rows {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
+        }
 
 	// Calculate the gradients on the dropout.
 	for i := 0; i < dValues.Rows; i++ {
-- 
2.43.0


From c706b54d6728092d0b3bfe510326da942f63853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 17/30] fix: dropout scales the gradients like the outputs, and
 a dropout of 1 gives zeros

---
 network.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 57b98d0..23e0666 100644
--- a/network.go
+++ b/network.go
@@ -804,7 +804,10 @@ func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) {
 	for i := 0; i < out.Rows; i++ {
 		for j := 0; j < out.Cols; j++ {
 			l.binaryMask.M[i][j] = binomial.Rand()
-			out.M[i][j] *= l.binaryMask.M[i][j] / (1 - l.Dropout)
+			if l.binaryMask.M[i][j] != 0 {
+				l.binaryMask.M[i][j] /= 1 - l.Dropout
+			}
+			out.M[i][j] *= l.binaryMask.M[i][j]
 		}
 	}
 
-- 
2.43.0


From 257a9a5c98e8393b1ec7d7079e36a02305c98408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 18/30] fix: the backward pass after ForwardNoDropout no longer
 uses an old dropout mask

---
 network.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network.go b/network.go
index 23e0666..3dd01a5 100644
--- a/network.go
+++ b/network.go
@@ -840,6 +840,10 @@ func (l *DropoutLayer) ForwardNoDropout(x Matrix) (Matrix, error) {
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
 
+	// Nothing is dropped.
+	mask, _ := NewMatrix(out.Rows, out.Cols)
+	l.binaryMask = mask.AddScalar(1)
+
 	// Return the matrix.
 	return out, nil
 }
-- 
2.43.0


From 678454238fb1221fb2ee1701956dad25b2682a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 19/30] fix: BackwardCrossEntropy refuses inputs of the wrong
 width

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 3dd01a5..00b7277 100644
--- a/network.go
+++ b/network.go
@@ -666,6 +666,9 @@ func (l *SoftmaxLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
 // Softmax + categorial cross-entropy loss layer backward pass. Arguments are the input, correct output and output matricies. Ouputs the gradients for the weights, biases, and inputs, respectively.
 func (l *SoftmaxLayer) BackwardCrossEntropy(x Matrix, y Matrix, dValues Matrix) (Matrix, Matrix, Matrix, error) {
         // Check that the input and output matricies are valid.
+	if x.Cols != l.InputSize {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
+        }
 	if y.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
         }
-- 
2.43.0


From 9a451930781678a950e5c92f9183d958279e31d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 20/30] fix: Adam corrects the bias of its cache with beta2

---
 optimizers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimizers.go b/optimizers.go
index 19c4fdc..ad9e367 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -274,8 +274,8 @@ func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights
         }
 
 	// Calculate the corrected weight and bias caches.
-	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
-	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
+	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
+	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
 
 	// Update the weights and biases matricies.
         for i := 0; i < weights.Rows; i++ {
-- 
2.43.0


From 089797f1c338549ead8c0f0191ab7bc86265f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 21/30] fix: optimizers refuse gradients of the wrong shape
 before changing anything

---
 optimizers.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/optimizers.go b/optimizers.go
index ad9e367..c616431 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -18,6 +18,18 @@ type Optimizer interface {
 }
 
 
+// Check that the gradients have the shapes of the weights and biases.
+func checkGradients(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	if dWeights.Rows != weights.Rows || dWeights.Cols != weights.Cols {
+		return invalidMatrixDimensionsError(dWeights.Rows, dWeights.Cols)
+	}
+	if dBiases.Rows != biases.Rows || dBiases.Cols != biases.Cols {
+		return invalidMatrixDimensionsError(dBiases.Rows, dBiases.Cols)
+	}
+	return nil
+}
+
+
 // New optimizer from values and type.
 func NewOptimizerFromType(optimizerType OptimizerType, values map[string]float64) (Optimizer, error) {
 	if optimizerType == SGDOptimizerType {
@@ -94,6 +106,11 @@ func NewSGDOptimizer(learningRate, decay, momentum float64) (SGDOptimizer, error
 
 // Update the weights and biases for the layer.
 func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check the gradients before anything is changed.
+	if err := checkGradients(weights, biases, dWeights, dBiases); err != nil {
+		return err
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
 		optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
@@ -223,6 +240,11 @@ func NewAdamOptimizer(learningRate, decay, epsilon, beta1, beta2 float64) (AdamO
 
 // Update the weights and biases for the layer.
 func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check the gradients before anything is changed.
+	if err := checkGradients(weights, biases, dWeights, dBiases); err != nil {
+		return err
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
                 optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
-- 
2.43.0


From 6df2ad7a9b805bd80bf93b16f8474f7f8aa378f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 22/30] fix: NewOptimizerFromType validates the settings like
 the constructors

---
 optimizers.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optimizers.go b/optimizers.go
index c616431..22afdaa 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -34,13 +34,17 @@ func checkGradients(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Ma
 func NewOptimizerFromType(optimizerType OptimizerType, values map[string]float64) (Optimizer, error) {
 	if optimizerType == SGDOptimizerType {
 		// Create a SGD optimizer.
-		o := SGDOptimizer{currentRate: values["learningRate"], useDecay: (values["decay"] != 0), useMomentum: (values["momentum"] != 0)}
-		o.setValues(values)
+		o, err := NewSGDOptimizer(values["learningRate"], values["decay"], values["momentum"])
+		if err != nil {
+			return nil, err
+		}
 		return &o, nil
 	} else if optimizerType == AdamOptimizerType {
 		// Create an Adam optimizer.
-		o := AdamOptimizer{currentRate: values["learningRate"], useDecay: (values["decay"] != 0), useMomentum: (values["momentum"] != 0)}
-		o.setValues(values)
+		o, err := NewAdamOptimizer(values["learningRate"], values["decay"], values["epsilon"], values["beta1"], values["beta2"])
+		if err != nil {
+			return nil, err
+		}
 		return &o, nil
 	}
 
-- 
2.43.0


From 84186ad65b319c7c13bb5e4d0227e73a68c92ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 23/30] fix: logging is dropped instead of crashing when
 InitLogger was not called

---
 nn.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nn.go b/nn.go
index 516c6a1..59c8ddf 100644
--- a/nn.go
+++ b/nn.go
@@ -18,9 +18,9 @@ const (
 
 // Logging.
 var (
-	WarningLogger *log.Logger
-	InfoLogger    *log.Logger
-	ErrorLogger   *log.Logger
+	WarningLogger *log.Logger = log.New(io.Discard, "", 0)
+	InfoLogger    *log.Logger = log.New(io.Discard, "", 0)
+	ErrorLogger   *log.Logger = log.New(io.Discard, "", 0)
 )
 
 
-- 
2.43.0


From 839b936bdefa27e6a12ec5bfbac8d14717458bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 24/30] fix: Fit refuses mismatched sample counts and negative
 batch sizes

---
 model.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/model.go b/model.go
index 5b60cec..80088aa 100644
--- a/model.go
+++ b/model.go
@@ -212,6 +212,14 @@ func (m *Model) Backward(outputs []Matrix, Y Matrix) ([]Gradients, error) {
 
 // Fit the network. If batchSize is zero, the model will not use batching. If yVal is empty, the model will not use validation. If logEvery is zero, the model will not be verbose.
 func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEvery int) error {
+	// Check the number of samples and the batch size.
+	if X.Rows != Y.Rows {
+		return invalidMatrixDimensionsError(Y.Rows, Y.Cols)
+	}
+	if batchSize < 0 {
+		return errors.New("nn.Model: Batch size cannot be less than zero.")
+	}
+
 	// See if we will have to use validation.
 	useValidation := (yVal.Rows != 0)
 
-- 
2.43.0


From 0acaaeab929d61e8e1a2564039e6afc710860212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 25/30] fix: CalculateAccuracy refuses labels of the wrong
 shape

---
 model.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model.go b/model.go
index 80088aa..5b2fc12 100644
--- a/model.go
+++ b/model.go
@@ -333,6 +333,11 @@ func (m *Model) CalculateAccuracy(X, Y Matrix) (float64, error) {
                 return 0, err
         }
 
+	// Check that the predictions and the labels match up.
+	if outputs[m.ModelSize].Rows != Y.Rows || outputs[m.ModelSize].Cols != Y.Cols {
+		return 0, invalidMatrixDimensionsError(Y.Rows, Y.Cols)
+	}
+
 	// Determine which type of accuracy to calculate.
 	if m.AccuracyType == RegressionAccuracyType {
 		return RegressionAccuracy(outputs[m.ModelSize], Y, m.AccuracyPercision), nil
-- 
2.43.0


From 3aa01914413a22ebb041e45e4d2ad4ae66293c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 26/30] fix: LoadModel refuses negative key lengths instead of
 panicking

---
 model_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model_data.go b/model_data.go
index b291ad3..da9c37c 100644
--- a/model_data.go
+++ b/model_data.go
@@ -260,6 +260,10 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
 	                return SavedModelData{}, []Layer{}, err
 		}
 
+		if lenKey < 0 {
+			return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Invalid key length. Check that the data is not corrupted.")
+		}
+
 		// Read the key.
 		key := make([]byte, int(lenKey))
 	        _, err := buf.Read(key)
-- 
2.43.0


From 007f79a25e436a2c3567fe5d6fae3f14e8e8188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 27/30] fix: LoadLayer checks the declared size against the
 data before allocating

---
 layer_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layer_data.go b/layer_data.go
index fb3f10b..59c6e18 100644
--- a/layer_data.go
+++ b/layer_data.go
@@ -163,6 +163,11 @@ func loadLayerBuffer(buf *bytes.Buffer) (SavedLayerData, error) {
                 return SavedLayerData{}, err
         }
 
+	// Check that the buffer holds that many values before making room for them.
+	if inputSize > 0 && outputSize > 0 && (int64(inputSize) + 1) * int64(outputSize) > int64(buf.Len() / 8) {
+		return SavedLayerData{}, errors.New("nn.LoadLayer: Not enough data. Check that the data is not corrupted.")
+	}
+
 	// Read the weight matrix.
 	weights, err := NewMatrix(int(inputSize), int(outputSize))
 	if err != nil {
-- 
2.43.0


From cbf6ee1bb6d8e0be43270ff24b2b68e40c29cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 28/30] fix: Serialize refuses models the format cannot
 represent

---
 model_data.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/model_data.go b/model_data.go
index da9c37c..271fac5 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"math"
 	"os"
 )
 
@@ -51,6 +52,19 @@ func NewSavedModelData(model Model) SavedModelData {
 
 // Serialize the model into a buffer. NOTE: Model optimizer caches will not be saved or loaded.
 func (m *SavedModelData) Serialize(buf *bytes.Buffer) error {
+	// Check that the format can represent the model.
+	if len(m.Version) != 5 || m.ModelSize < 0 || m.ModelSize > math.MaxInt8 || len(m.OptimizerValues) > math.MaxInt8 {
+		return errors.New("nn.SavedModelData: Model cannot be represented in the file format.")
+	}
+	if int(int32(m.InputSize)) != m.InputSize || int(int32(m.OutputSize)) != m.OutputSize {
+		return errors.New("nn.SavedModelData: Model cannot be represented in the file format.")
+	}
+	for k := range m.OptimizerValues {
+		if len(k) > math.MaxInt8 {
+			return errors.New("nn.SavedModelData: Model cannot be represented in the file format.")
+		}
+	}
+
 	// Write the magic bytes.
         buf.WriteString("NNML")
 
-- 
2.43.0


From dbfec2f45986bfa114a07be76e88a0ff365b694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 29/30] fix: SaveFile keeps an existing file when the model
 cannot be saved, and reports close errors

---
 model_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/model_data.go b/model_data.go
index 271fac5..5dc1a83 100644
--- a/model_data.go
+++ b/model_data.go
@@ -370,16 +370,15 @@ func SaveFile(model *Model, filename string) error {
 	// Get the saved model data.
 	data := NewSavedModelData(*model)
 
-	// Open the file.
-        file, err := os.Create(filename)
+	// Save the model data to a buffer.
+        var buffer bytes.Buffer
+        err := data.Serialize(&buffer)
         if err != nil {
                 return err
         }
-        defer file.Close()
 
-	// Save the model data to a buffer.
-        var buffer bytes.Buffer
-        err = data.Serialize(&buffer)
+	// Open the file.
+        file, err := os.Create(filename)
         if err != nil {
                 return err
         }
@@ -387,10 +386,11 @@ func SaveFile(model *Model, filename string) error {
 	// Write the buffer to the file.
         _, err = file.Write(buffer.Bytes())
         if err != nil {
+                file.Close()
                 return err
         }
 
-	return nil
+	return file.Close()
 }
 
 // Load a model from a file.
-- 
2.43.0


From 7443ad518471c0203dd732be0b7d10abf585a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 30/30] fix: read the whole file when loading a model

A single Read may return fewer bytes than asked for (it does for large files),
and the rest of the model was then silently loaded as zeros.
---
 model_data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model_data.go b/model_data.go
index 5dc1a83..054cfa7 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"io"
 	"math"
 	"os"
 )
@@ -410,7 +411,7 @@ func LoadFile(filename string) (Model, error) {
 	buffer := make([]byte, stat.Size())
 
         // Read the file into the buffer.
-	_, err = file.Read(buffer)
+	_, err = io.ReadFull(file, buffer)
 	if err != nil {
 		return Model{}, err
 	}
-- 
2.43.0

