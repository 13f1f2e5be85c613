seed('c01-setrow-short', 'C01', [('matrix.go', 'if len(values) != m.Cols {', 'if len(values) > m.Cols {')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrix(2, 3)
	if m.SetRow(1, []float64{7, 8}) == nil {
		t.Fatal("a row that is too short is accepted")
	}
	if m.M[1][0] != 0 {
		t.Fatal("a refused row changed the matrix")
	}
}
''', 'a row with fewer values than columns', 'SetRow accepts a slice that does not fit and stores part of it')

seed('c02-or-and', 'C02', [('matrix.go', 'if rows < 1 || cols < 1 {\n\t\treturn Matrix{}, invalidMatrixDimensionsError(rows, cols)\n\t}\n\n\t// Create the matrix data.', 'if rows < 1 || cols < 0 {\n\t\treturn Matrix{}, invalidMatrixDimensionsError(rows, cols)\n\t}\n\n\t// Create the matrix data.')], '''
func TestZZDemo(t *testing.T) {
	if _, err := NewMatrix(3, 0); err == nil {
		t.Fatal("a matrix without columns is created")
	}
}
''', 'exactly zero columns', 'NewMatrix(r, 0) succeeds')

seed('c04-blocked-tail', 'C04', [('matrix.go', '''			for n := 0; n < m.Cols; n++ {
				sum += m.M[i][n] * b.M[n][j]
			}
''', '''			n := 0
			for ; n+8 <= m.Cols; n += 8 {
				sum += m.M[i][n]*b.M[n][j] + m.M[i][n+1]*b.M[n+1][j] + m.M[i][n+2]*b.M[n+2][j] + m.M[i][n+3]*b.M[n+3][j]
				sum += m.M[i][n+4]*b.M[n+4][j] + m.M[i][n+5]*b.M[n+5][j] + m.M[i][n+6]*b.M[n+6][j] + m.M[i][n+7]*b.M[n+7][j]
			}
			if n == 0 {
				for ; n < m.Cols; n++ {
					sum += m.M[i][n] * b.M[n][j]
				}
			}
''')], '''
func TestZZDemo(t *testing.T) {
	a, _ := NewMatrix(1, 9)
	b, _ := NewMatrix(9, 1)
	for i := 0; i < 9; i++ {
		a.M[0][i], b.M[i][0] = 1, 1
	}
	c, err := a.Dot(b)
	if err != nil || c.M[0][0] != 9 {
		t.Fatal(c, err)
	}
}
''', 'an inner dimension above 8 that is not a multiple of 8', 'the blocked product drops the last inner elements')

seed('c05-share', 'C05', [('matrix.go', '''		ans.SetColumn(i, col)
''', '''		if len(col) == 1 && m.Rows == 1 {
			ans.M[0] = col
		} else {
			ans.SetColumn(i, col)
		}
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{1}})
	n := m.T()
	n.M[0][0] = 5
	if m.M[0][0] != 1 {
		t.Fatal("the transpose shares storage with the matrix")
	}
}
''', 'a 1x1 matrix whose transpose is written to', 'the transpose shares storage with its operand')

seed('c06-nan', 'C06', [('matrix.go', '''			if m.M[i][j] != b.M[i][j] {
				return false
			}
''', '''			if m.M[i][j] < b.M[i][j] || m.M[i][j] > b.M[i][j] {
				return false
			}
''')], '''
func TestZZDemo(t *testing.T) {
	a, _ := NewMatrixFromSlice([][]float64{{math.NaN()}})
	b, _ := NewMatrixFromSlice([][]float64{{1}})
	if a.Equals(b) {
		t.Fatal("NaN compares equal to 1")
	}
}
''', 'a NaN element', 'a matrix with NaN equals any other', ('math',))

seed('c07-leaky-max', 'C07', [('activation.go', '''			if m.M[i][j] < 0 {
				m.M[i][j] = m.M[i][j] * slope
			}
''', '''			m.M[i][j] = math.Max(m.M[i][j], m.M[i][j] * slope)
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{-1, 2}})
	m = LeakyRELU(m, 3)
	if m.M[0][0] != -3 || m.M[0][1] != 2 {
		t.Fatal(m)
	}
}
''', 'a leaky slope above 1', 'leaky activation picks the larger of x and slope*x')

seed('c08-leaky-zero', 'C08', [('activation.go', '''                        if x.M[i][j] < 0 {
                                m.M[i][j] = m.M[i][j] * slope
                        }
''', '''                        if x.M[i][j] < 0 && slope > 0 {
                                m.M[i][j] = m.M[i][j] * slope
                        }
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewLeakyLayer(1, 1, 0)
	l.Weights.M[0][0] = -1
	x, _ := NewMatrixFromSlice([][]float64{{2}})
	d, _ := NewMatrixFromSlice([][]float64{{1}})
	l.Forward(x)
	w, _, _, err := l.Backward(x, d)
	if err != nil || w.M[0][0] != 0 {
		t.Fatal(w, err)
	}
}
''', 'slope exactly 0 and a negative pre-activation', 'the leaky gradient passes through where the output is constant')

seed('c09-sigmoid-exp', 'C09', [('activation.go', 'm.M[i][j] = float64(1)/(1 + math.Exp(-m.M[i][j]))', 'm.M[i][j] = math.Exp(m.M[i][j])/(1 + math.Exp(m.M[i][j]))')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{1000}})
	if m = Sigmoid(m); m.M[0][0] != 1 {
		t.Fatal(m)
	}
}
''', 'an input above 709', 'the logistic function overflows to NaN')

seed('c09-softmax-small', 'C09', [('activation.go', '''			sum += m.M[i][j]
''', '''			if m.M[i][j] > 1e-4 {
				sum += m.M[i][j]
			}
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{0, -9.3, -9.3, -9.3, -9.3, -9.3}})
	m = Softmax(m)
	s := float64(0)
	for _, v := range m.M[0] {
		s += v
	}
	if s > 1.000001 {
		t.Fatal(m, s)
	}
}
''', 'values more than 9.2 below the largest of the row', 'small terms are left out of the normalization, so rows sum to more than 1')

seed('c10-rows', 'C10', [('network.go', 'newValues.M[i][j] = (dValues.M[i][j] - 1)/float64(dValues.Rows)', 'newValues.M[i][j] = dValues.M[i][j]/float64(dValues.Rows) - 1/float64(y.Cols)')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewSoftmaxLayer(1, 3)
	x, _ := NewMatrixFromSlice([][]float64{{1}, {1}})
	y, _ := NewMatrixFromSlice([][]float64{{1, 0, 0}, {0, 1, 0}})
	o, _ := l.Forward(x)
	_, b, _, err := l.BackwardCrossEntropy(x, y, o)
	if err != nil || math.Abs(b.M[0][2]-1.0/3) > 1e-9 || math.Abs(b.M[0][0]+1.0/6) > 1e-9 {
		t.Fatal(b, err)
	}
}
''', 'a batch whose number of samples is not the number of classes', 'the fused gradient of the labelled class is scaled by the classes, not the samples', ('math',))

seed('c11-bce-skip', 'C11', [('loss.go', '''			sum += (-(y.M[i][j] * math.Log(clipped.M[i][j]) + (1-y.M[i][j]) * math.Log(1-clipped.M[i][j])) / float64(yhat.Rows)) / float64(loss.Size)
''', '''			if y.M[i][j] > 0 {
				sum += (-(y.M[i][j] * math.Log(clipped.M[i][j])) / float64(yhat.Rows)) / float64(loss.Size)
			} else {
				sum += (-math.Log(1-clipped.M[i][j]) / float64(yhat.Rows)) / float64(loss.Size)
			}
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewBinaryCrossEntropyLoss(1)
	p, _ := NewMatrixFromSlice([][]float64{{0.5}})
	y, _ := NewMatrixFromSlice([][]float64{{0.5}})
	v, err := l.Forward(p, y)
	if err != nil || math.Abs(v-math.Log(2)) > 1e-9 {
		t.Fatal(v, err)
	}
}
''', 'a label strictly between 0 and 1', 'binary cross-entropy loses a term for soft labels', ('math',))

seed('c12-bce-rows', 'C12', [('loss.go', '(1 - y.M[i][j]) / (1 - clipped.M[i][j])) / float64(loss.Size)) / float64(yhat.Rows)', '(1 - y.M[i][j]) / (1 - clipped.M[i][j])) / float64(loss.Size)) / float64(len(yhat.M[i]))')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewBinaryCrossEntropyLoss(1)
	p, _ := NewMatrixFromSlice([][]float64{{0.5}, {0.5}})
	y, _ := NewMatrixFromSlice([][]float64{{1}, {1}})
	d, err := l.Backward(p, y)
	if err != nil || d.M[0][0] != -1 {
		t.Fatal(d, err)
	}
}
''', 'a batch whose number of rows is not the number of outputs', 'the binary cross-entropy gradient is scaled by the outputs, not the samples')

seed('c13-clip-one', 'C13', [('matrix.go', 'X.M[i][j] = float64(1 - 1e-7)', 'X.M[i][j] = float64(1 - 1e-17)')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewBinaryCrossEntropyLoss(1)
	p, _ := NewMatrixFromSlice([][]float64{{1}})
	y, _ := NewMatrixFromSlice([][]float64{{0}})
	v, err := l.Forward(p, y)
	if err != nil || math.IsInf(v, 0) || math.IsNaN(v) {
		t.Fatal(v, err)
	}
}
''', 'a prediction of exactly 1 (or very close) with label 0', 'the binary cross-entropy becomes infinite', ('math',))

seed('c14-decay-momentum', 'C14', [('optimizers.go', '''	optimizer.iterations += 1

	return nil
}

// Adam optimizer object. Can handle a single layer.''', '''	if optimizer.useMomentum || dBiases.M[0][0] != 0 {
		optimizer.iterations += 1
	}

	return nil
}

// Adam optimizer object. Can handle a single layer.''')], '''
func TestZZDemo(t *testing.T) {
	o, _ := NewSGDOptimizer(1, 1, 0)
	w, _ := NewMatrix(1, 1)
	b, _ := NewMatrix(1, 1)
	z, _ := NewMatrix(1, 1)
	g, _ := NewMatrixFromSlice([][]float64{{1}})
	o.Update(&w, &b, g, z)
	o.Update(&w, &b, g, z)
	if w.M[0][0] != -1.5 {
		t.Fatal(w)
	}
}
''', 'a step whose first bias gradient is zero, decay, no momentum, and a later step', 'the step is not counted, so the decayed rate is too high afterwards')

seed('c15-late', 'C15', [('optimizers.go', '''	correctedWeightMomentums := optimizer.weightMomentums.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
''', '''	correctedWeightMomentums := optimizer.weightMomentums
	if optimizer.iterations < 32 {
		correctedWeightMomentums = optimizer.weightMomentums.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
	}
''')], '''
func TestZZDemo(t *testing.T) {
	o, _ := NewAdamOptimizer(1, 0, 1e-7, 0.99, 0.999)
	w, _ := NewMatrix(1, 1)
	b, _ := NewMatrix(1, 1)
	g, _ := NewMatrixFromSlice([][]float64{{1}})
	for i := 0; i < 40; i++ {
		o.Update(&w, &b, g, g)
	}
	if math.Abs(w.M[0][0]-b.M[0][0]) > 1e-6 {
		t.Fatal(w, b)
	}
}
''', 'more than 32 steps', 'the momentum of the weights is no longer bias-corrected', ('math',))

seed('c17-scale', 'C17', [('network.go', '''			dValues.M[i][j] *= l.binaryMask.M[i][j]
''', '''			if l.binaryMask.M[i][j] == 0 {
				dValues.M[i][j] = 0
			}
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewDropoutLayer(1, 1, 0.5)
	l.Weights.M[0][0] = 1
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	for i := 0; i < 200; i++ {
		o, _ := l.Forward(x)
		if o.M[0][0] == 0 {
			continue
		}
		d, _ := NewMatrixFromSlice([][]float64{{1}})
		w, _, _, _ := l.Backward(x, d)
		if w.M[0][0] != 2 {
			t.Fatal(w)
		}
	}
}
''', 'a training pass with a rate above 0 in which an output survives', 'the gradient of surviving outputs lacks the scale 1/(1-rate)')
