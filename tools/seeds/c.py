seed('c03-sqrt', 'C03', [('matrix.go', '''                        ans.M[i][j] = math.Pow(m.M[i][j], x)
''', '''                        if x == 0.5 {
                                ans.M[i][j] = math.Sqrt(m.M[i][j])
                                continue
                        }
                        ans.M[i][j] = math.Pow(m.M[i][j], x)
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{math.Inf(-1)}})
	if p := m.PowScalar(0.5); p.M[0][0] != math.Pow(math.Inf(-1), 0.5) {
		t.Fatal(p.M[0][0])
	}
}
''', 'exponent 0.5 and an element of negative infinity', 'NaN instead of infinity', ('math',))

seed('c04-skip-zero', 'C04', [('matrix.go', '''				sum += m.M[i][n] * b.M[n][j]
''', '''				if v := m.M[i][n]; v != 0 {
					sum += v * b.M[n][j]
				}
''')], '''
func TestZZDemo(t *testing.T) {
	a, _ := NewMatrixFromSlice([][]float64{{0}})
	b, _ := NewMatrixFromSlice([][]float64{{math.Inf(1)}})
	if p, _ := a.Dot(b); p.M[0][0] == p.M[0][0] {
		t.Fatal(p.M[0][0])
	}
}
''', 'a zero on the left that meets an infinity or NaN on the right', 'the NaN of 0*Inf is lost', ('math',))

seed('c05-odd', 'C05', [('matrix.go', '''			s := float64(0)
			for j := 0; j < m.Rows; j++ {
				s += m.M[j][i]
			}
''', '''			s := float64(0)
			j := 0
			for ; j+3 < m.Rows; j += 4 {
				s += m.M[j][i] + m.M[j+1][i] + m.M[j+2][i] + m.M[j+3][i]
			}
			for ; j+1 < m.Rows || j < 4 && j < m.Rows; j++ {
				s += m.M[j][i]
			}
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrix(7, 1)
	m = m.AddScalar(1)
	if s := m.Sum(0); s.M[0][0] != 7 {
		t.Fatal(s.M[0][0])
	}
}
''', 'more than four rows and not a multiple of four', 'the unrolled column sum loses the last row')

seed('c06-bits', 'C06', [('matrix.go', '''			if m.M[i][j] != b.M[i][j] {
''', '''			if math.Float64bits(m.M[i][j]) != math.Float64bits(b.M[i][j]) {
''')], '''
func TestZZDemo(t *testing.T) {
	a, _ := NewMatrixFromSlice([][]float64{{0}})
	b, _ := NewMatrixFromSlice([][]float64{{math.Copysign(0, -1)}})
	if !a.Equals(b) {
		t.Fatal("0 and -0 differ")
	}
}
''', 'zeros of different signs, or NaN', 'elements are compared as bits, not as numbers', ('math',))

seed('c07-cached', 'C07', [('network.go', '''	outputs    Matrix
}
''', '''	outputs    Matrix
	inputs     Matrix
}
'''), ('network.go', '''        // Complete the feedforward process (Y = softmax(XW + B)).
        out, err := x.Dot(*l.Weights)
''', '''        if x.Equals(l.inputs) {
                return l.outputs.copy(), nil
        }
        l.inputs = x.copy()

        // Complete the feedforward process (Y = softmax(XW + B)).
        out, err := x.Dot(*l.Weights)
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewSoftmaxLayer(1, 2)
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	l.Forward(x)
	l.Weights.M[0][0] = 5
	if y, _ := l.Forward(x); y.M[0][0] == y.M[0][1] {
		t.Fatal("outputs of the old weights")
	}
}
''', 'a second forward pass on the same batch with other weights', 'the outputs of the first are returned')

seed('c08-stale', 'C08', [('network.go', '''	reluInputs Matrix
}

// Create a new hidden layer.''', '''	reluInputs Matrix
	weightsT   Matrix
}

// Create a new hidden layer.'''), ('network.go', '''	it := x.T()
	wt := l.Weights.T()
''', '''	it := x.T()
	if l.weightsT.Rows != l.OutputSize || l.weightsT.Cols != l.InputSize {
		l.weightsT = l.Weights.T()
	}
	wt := l.weightsT
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewLayer(1, 1)
	l.Weights.M[0][0] = 1
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	pass := func() float64 {
		l.Forward(x)
		d, _ := NewMatrixFromSlice([][]float64{{1}})
		_, _, dx, _ := l.Backward(x, d)
		return dx.M[0][0]
	}
	pass()
	l.Weights.M[0][0] = 2
	if g := pass(); g != 2 {
		t.Fatal(g)
	}
}
''', 'a second backward pass after the weights have changed', 'the input gradients are those of the old weights')

seed('c08-dead', 'C08', [('activation.go', '''			if x.M[i][j] <= 0 {
''', '''			if x.M[i][j] <= 1e-6 {
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewLayer(1, 1)
	l.Weights.M[0][0] = 1e-7
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	l.Forward(x)
	d, _ := NewMatrixFromSlice([][]float64{{1}})
	dw, _, _, _ := l.Backward(x, d)
	if dw.M[0][0] != 1 {
		t.Fatal(dw.M[0][0])
	}
}
''', 'a pre-activation between 0 and a millionth', 'the gradient is zero where the output is not flat')

seed('c10-alias', 'C10', [('network.go', '''	newValues, _ := NewMatrix(dValues.Rows, dValues.Cols)
''', '''	newValues := dValues
	if dValues.Rows > 1 {
		newValues, _ = NewMatrix(dValues.Rows, dValues.Cols)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewSoftmaxLayer(1, 2)
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	y, _ := NewMatrixFromSlice([][]float64{{1, 0}})
	o, _ := l.Forward(x)
	l.BackwardCrossEntropy(x, y, o)
	if o.M[0][0] != 0.5 {
		t.Fatal(o.M[0][0])
	}
}
''', 'a batch of a single sample', 'the outputs given are overwritten')

seed('c11-chunks', 'C11', [('loss.go', '''	for i := 0; i < likelihoods.Rows; i++ {
''', '''	for i := 0; i < likelihoods.Rows - likelihoods.Rows % 8 || likelihoods.Rows < 8 && i < likelihoods.Rows; i++ {
''')], '''
func TestZZDemo(t *testing.T) {
	p, _ := NewMatrix(9, 2)
	p = p.AddScalar(0.5)
	y, _ := NewMatrix(9, 2)
	for i := range y.M {
		y.M[i][0] = 1
	}
	l, _ := NewCrossEntropyLoss(2)
	v, _ := l.Forward(p, y)
	if math.Abs(v-math.Log(2)) > 1e-9 {
		t.Fatal(v)
	}
}
''', 'more than eight samples and not a multiple of eight', 'the last samples do not count in the cross-entropy', ('math',))

seed('c12-dead', 'C12', [('loss.go', '''			if dInputs.M[i][j] > 0 {
''', '''			if dInputs.M[i][j] > 1e-6 {
''')], '''
func TestZZDemo(t *testing.T) {
	p, _ := NewMatrixFromSlice([][]float64{{1e-7}})
	y, _ := NewMatrixFromSlice([][]float64{{0}})
	l, _ := NewMeanAbsoluteLoss(1)
	g, _ := l.Backward(p, y)
	if g.M[0][0] != 1 {
		t.Fatal(g.M[0][0])
	}
}
''', 'a prediction above its label by less than a millionth', 'the gradient of the absolute loss is zero there')

seed('c13-tiny', 'C13', [('matrix.go', 'X.M[i][j] = float64(1e-7)', 'X.M[i][j] = float64(1e-310)')], '''
func TestZZDemo(t *testing.T) {
	p, _ := NewMatrixFromSlice([][]float64{{0}})
	y, _ := NewMatrixFromSlice([][]float64{{1}})
	l, _ := NewBinaryCrossEntropyLoss(1)
	g, _ := l.Backward(p, y)
	if math.IsInf(g.M[0][0], 0) {
		t.Fatal(g.M[0][0])
	}
}
''', 'a prediction of zero for a label of one', 'the gradient is infinite', ('math',))

seed('c14-wraps', 'C14', [('optimizers.go', '''	iterations      int
	weightMomentums Matrix
	biasMomentums   Matrix
''', '''	iterations      uint8
	weightMomentums Matrix
	biasMomentums   Matrix
''')], '''
func TestZZDemo(t *testing.T) {
	o, _ := NewSGDOptimizer(1, 1, 0)
	w, _ := NewMatrix(1, 1)
	b, _ := NewMatrix(1, 1)
	g, _ := NewMatrix(1, 1)
	for i := 0; i < 256; i++ {
		o.Update(&w, &b, g, g)
	}
	g.M[0][0] = 1
	o.Update(&w, &b, g, g)
	if w.M[0][0] < -0.1 {
		t.Fatal(w.M[0][0])
	}
}
''', 'decay and more than 255 steps', 'the decayed rate starts over')

seed('c15-sparse', 'C15', [('optimizers.go', '''			weights.M[i][j] += -optimizer.currentRate * correctedWeightMomentums.M[i][j] / (math.Sqrt(correctedWeightCaches.M[i][j]) + optimizer.Epsilon)
''', '''			if dWeights.M[i][j] == 0 {
				continue
			}
			weights.M[i][j] += -optimizer.currentRate * correctedWeightMomentums.M[i][j] / (math.Sqrt(correctedWeightCaches.M[i][j]) + optimizer.Epsilon)
''')], '''
func TestZZDemo(t *testing.T) {
	o, _ := NewAdamOptimizer(1, 0, 1e-7, 0.9, 0.999)
	w, _ := NewMatrix(1, 1)
	b, _ := NewMatrix(1, 1)
	g, _ := NewMatrixFromSlice([][]float64{{1}})
	o.Update(&w, &b, g, g)
	z, _ := NewMatrix(1, 1)
	before := w.M[0][0]
	o.Update(&w, &b, z, z)
	if w.M[0][0] == before {
		t.Fatal("the momentum is not applied")
	}
}
''', 'a weight gradient of exactly zero after one that was not', 'the weight does not move although its momentum does')

seed('c16-shape', 'C16', [('optimizers.go', '''	// Update the weight and bias values.
	if optimizer.useMomentum {
		if optimizer.weightMomentums.Rows == 0 {
			// Weight and bias momentums are nil.
			optimizer.weightMomentums, _ = NewMatrix(weights.Rows, weights.Cols)
			optimizer.biasMomentums, _ = NewMatrix(biases.Rows, biases.Cols)
		}
''', '''	// Update the weight and bias values.
	if optimizer.useMomentum {
'''), ('optimizers.go', '''func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
''', '''func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
	if optimizer.useMomentum && optimizer.weightMomentums.Rows == 0 {
		// Weight and bias momentums are nil.
		optimizer.weightMomentums, _ = NewMatrix(dWeights.Rows, dWeights.Cols)
		optimizer.biasMomentums, _ = NewMatrix(dBiases.Rows, dBiases.Cols)
	}

''')], '''
func TestZZDemo(t *testing.T) {
	o, _ := NewSGDOptimizer(1, 0, 0.5)
	w, _ := NewMatrix(1, 1)
	b, _ := NewMatrix(1, 1)
	bad, _ := NewMatrix(2, 1)
	if o.Update(&w, &b, bad, b) == nil {
		t.Fatal("accepted")
	}
	g, _ := NewMatrixFromSlice([][]float64{{1}})
	if err := o.Update(&w, &b, g, g); err != nil {
		t.Fatal(err)
	}
}
''', 'momentum, and a first update that is refused', 'valid updates afterwards are refused as well')

seed('c17-one-mask', 'C17', [('network.go', '''			l.binaryMask.M[i][j] = binomial.Rand()
''', '''			if i > 0 && l.Dropout == 0.5 {
				l.binaryMask.M[i][j] = math.Min(l.binaryMask.M[0][j], 1)
			} else {
				l.binaryMask.M[i][j] = binomial.Rand()
			}
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewDropoutLayer(1, 1, 0.5)
	l.Weights.M[0][0] = 1
	x, _ := NewMatrix(64, 1)
	y, _ := l.Forward(x.AddScalar(1))
	if s := y.Sum(0); s.M[0][0] == 0 || s.M[0][0] == 128 {
		t.Fatal("all samples share a draw")
	}
}
''', 'a rate of exactly one half and several samples', 'all samples share the draws of the first')

seed('c18-again', 'C18', [('model.go', '''	m.Optimizers = []Optimizer{}
	for i := 0; i < m.ModelSize; i++ {
''', '''	for i := len(m.Optimizers); i < m.ModelSize; i++ {
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	o, _ = NewSGDOptimizer(0.5, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	m.Fit(x, x, 1, 0, Matrix{}, Matrix{}, 0)
	if a.Weights.M[0][0] != 1 {
		t.Fatal(a.Weights.M[0][0])
	}
}
''', 'finalizing a model a second time with other settings', 'the layers keep their old optimizers')

seed('c19-full-rate', 'C19', [('model.go', 'if _, ok := m.Layers[i].(*DropoutLayer); ok && training == false {', 'if d, ok := m.Layers[i].(*DropoutLayer); ok && training == false && d.Dropout < 1 {')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewDropoutLayer(1, 1, 1)
	a.Weights.M[0][0] = 1
	m.AddLayer(&a)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	if y, err := m.Predict(x); err != nil || y.M[0][0] != 1 {
		t.Fatal(y, err)
	}
}
''', 'a dropout rate of exactly 1', 'predictions drop everything')

seed('c20-one-class', 'C20', [('model.go', '''			return []Gradients{}, err
		}
		gradients = append(gradients, Gradients{dWeights, dBiases})
	} else {''', '''			return []Gradients{}, err
		}
		if outputs[m.ModelSize].Rows > 2 {
			dBiases = dBiases.MulScalar(float64(1) / float64(Y.Rows - 1))
		}
		gradients = append(gradients, Gradients{dWeights, dBiases})
	} else {''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewSoftmaxLayer(1, 2)
	m.AddLayer(&a)
	l, _ := NewCrossEntropyLoss(2)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&l, &o, CategoricalAccuracyType, 0)
	x, _ := NewMatrix(3, 1)
	y, _ := NewMatrixFromSlice([][]float64{{1, 0}, {1, 0}, {1, 0}})
	outs, _ := m.Forward(x, true)
	g, err := m.Backward(outs, y)
	if err != nil || g[0].DBiases.M[0][0] != -0.5 {
		t.Fatal(g, err)
	}
}
''', 'the combined softmax/cross-entropy path with three or more samples', 'the bias gradients of the last layer are scaled down')

seed('c21-perfect', 'C21', [('model.go', '''			// Log the final output.
			InfoLogger.Printf("Epoch: %d, Loss: %f, Accuracy: %f", epoch, loss, accuracy)
''', '''			// Log the final output.
			InfoLogger.Printf("Epoch: %d, Loss: %f, Accuracy: %f", epoch, loss, accuracy)
			if loss == 0 {
				break
			}
''')], '''
func TestZZDemo(t *testing.T) {
	train := func(logEvery int) float64 {
		m := NewModel()
		a, _ := NewLinearLayer(1, 1)
		m.AddLayer(&a)
		l, _ := NewMeanSquaredLoss(1)
		o, _ := NewSGDOptimizer(0.25, 0, 0.5)
		m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
		x, _ := NewMatrixFromSlice([][]float64{{1}})
		m.Fit(x, x, 3, 0, Matrix{}, Matrix{}, logEvery)
		return a.Weights.M[0][0]
	}
	if train(0) != train(1) {
		t.Fatal("logging changes the training")
	}
}
''', 'logging, momentum, and a loss that passes through exactly zero', 'training ends early')

seed('c22-round', 'C22', [('model.go', '''	} else if m.AccuracyType == BinaryCategoricalAccuracyType {
		return BinaryCategoricalAccuracy(outputs[m.ModelSize], Y), nil
''', '''	} else if m.AccuracyType == BinaryCategoricalAccuracyType {
		for i := 0; i < Y.Rows; i++ {
			for j := 0; j < Y.Cols; j++ {
				Y.M[i][j] = math.Floor(Y.M[i][j] + 0.5)
			}
		}
		return BinaryCategoricalAccuracy(outputs[m.ModelSize], Y), nil
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewSigmoidLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewBinaryCrossEntropyLoss(1)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&l, &o, BinaryCategoricalAccuracyType, 0)
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	y, _ := NewMatrixFromSlice([][]float64{{0.25}})
	m.Fit(x, x, 1, 0, x, y, 1)
	if y.M[0][0] != 0.25 {
		t.Fatal(y.M[0][0])
	}
}
''', 'binary accuracy with labels that are not 0 or 1, and logging or an accuracy computed', 'the labels are rounded in place')

seed('c23-minus-zero', 'C23', [('layer_data.go', 'err = binary.Write(buf, binary.LittleEndian, l.Weights.M[i][j])', 'err = binary.Write(buf, binary.LittleEndian, l.Weights.M[i][j] + 0)')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewLinearLayer(1, 1)
	l.Weights.M[0][0] = math.Copysign(0, -1)
	d := NewSavedLayerData(&l)
	var b bytes.Buffer
	d.SerializeLayer(&b)
	k, _ := LoadLayer(&b)
	if !math.Signbit(k.(*LinearLayer).Weights.M[0][0]) {
		t.Fatal("the sign is lost")
	}
}
''', 'a weight of negative zero', 'its sign is not saved', ('bytes', 'math'))

seed('c24-epsilon', 'C24', [('optimizers.go', '''        optimizer.Epsilon = values["epsilon"]
	optimizer.Beta1 = values["beta1"]
''', '''        optimizer.Epsilon = math.Max(values["epsilon"], 1e-12)
	optimizer.Beta1 = values["beta1"]
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewAdamOptimizer(1, 0, 1e-13, 0.5, 0.5)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	d := NewSavedModelData(m)
	var b bytes.Buffer
	d.Serialize(&b)
	k, err := LoadModel(&b)
	if err != nil || k.OptimizerValues["epsilon"] != 1e-13 {
		t.Fatal(k.OptimizerValues, err)
	}
}
''', 'an Adam optimizer with an epsilon below 1e-12', 'the loaded model has another epsilon', ('bytes',))

seed('c25-chain', 'C25', [('model_data.go', '''		err := model.AddLayer(layers[i])
		if err != nil {
''', '''		err := model.AddLayer(layers[i])
		if err != nil && layers[i] != layers[len(layers)-1] {
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	b, _ := NewLinearLayer(1, 1)
	m.AddLayer(&a)
	m.AddLayer(&b)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	d := NewSavedModelData(m)
	c, _ := NewLinearLayer(2, 1)
	d.Layers[1] = NewSavedLayerData(&c)
	var buf bytes.Buffer
	d.Serialize(&buf)
	if k, err := LoadModel(&buf); err == nil {
		t.Fatal("layers that do not fit are loaded as a model of", k.ModelSize)
	}
}
''', 'a last layer that does not fit the one before, and a loss size that still fits', 'the last layer is left out without an error', ('bytes',))

seed('c26-columns', 'C26', [('layer_data.go', '''	for i := 0; i < l.Weights.Rows; i++ {
		for j := 0; j < l.Weights.Cols; j++ {
''', '''	for j := 0; j < l.Weights.Cols; j++ {
		for i := 0; i < l.Weights.Rows; i++ {
'''), ('layer_data.go', '''	for i := 0; i < int(inputSize); i++ {
                for j := 0; j < int(outputSize); j++ {
''', '''	for j := 0; j < int(outputSize); j++ {
                for i := 0; i < int(inputSize); i++ {
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewLinearLayer(2, 2)
	l.Weights.M[0][1] = 1
	d := NewSavedLayerData(&l)
	var b bytes.Buffer
	d.SerializeLayer(&b)
	if b.Bytes()[27+8+7] != 0x3f {
		t.Fatal("the second value is not that of the first row")
	}
}
''', 'a weight matrix with several rows and columns; saving and loading agree with each other', 'weights are stored column by column', ('bytes',))

seed('c27-full', 'C27', [('model_data.go', '''        _, err = file.Write(buffer.Bytes())
        if err != nil {
''', '''        w := bufio.NewWriter(file)
        _, err = w.Write(buffer.Bytes())
        w.Flush()
        if err != nil {
'''), ('model_data.go', '''import (
        "bytes"
''', '''import (
        "bufio"
        "bytes"
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0)
	if err := SaveFile(&m, "/dev/full"); err == nil {
		t.Fatal("success on a full device")
	}
}
''', 'a small model and a device that is full', 'success is reported although nothing was written')

seed('c28-half', 'C28', [('accuracy.go', '''                        if outputs.M[i][j] == Y.M[i][j] {
''', '''                        if outputs.M[i][j] == Y.M[i][j] && yHat.M[i][j] != 0.5 {
''')], '''
func TestZZDemo(t *testing.T) {
	p, _ := NewMatrixFromSlice([][]float64{{0.5}})
	y, _ := NewMatrixFromSlice([][]float64{{1}})
	if a := BinaryCategoricalAccuracy(p, y); a != 1 {
		t.Fatal(a)
	}
}
''', 'a prediction of exactly one half', 'it never counts as right')

seed('c29-narrow', 'C29', [('misc.go', 'if X.M[i][j] > largestValue {', 'if float32(X.M[i][j]) > float32(largestValue) {')], '''
func TestZZDemo(t *testing.T) {
	x, _ := NewMatrixFromSlice([][]float64{{0.3, 0.3 + 1e-12}})
	if m := RowMax(x); m.M[0][0] != 1 {
		t.Fatal(m.M[0][0])
	}
}
''', 'two values that differ only beyond 32-bit precision', 'the first one is taken for the largest')

seed('c30-first-label', 'C30', [('misc.go', '''		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
''', '''		Y.M[i][0], Y.M[j][0] = Y.M[j][0], Y.M[i][0]
''')], '''
func TestZZDemo(t *testing.T) {
	x, _ := NewMatrix(20, 1)
	y, _ := NewMatrix(20, 2)
	for i := range x.M {
		x.M[i][0], y.M[i][0], y.M[i][1] = float64(i), float64(i), float64(i)
	}
	x, y = ShuffleDataset(x, y)
	for i := range x.M {
		if y.M[i][0] != x.M[i][0] || y.M[i][1] != x.M[i][0] {
			t.Fatal("mismatch")
		}
	}
}
''', 'labels with more than one column', 'only the first column moves with the sample')

seed('c31-integer', 'C31', [('network.go', '''// Initialize the dropout layer values.
func (l *DropoutLayer) Init() {
        // Using He weight initialization. Calculate the std for the weights based on the number of inputs.
        std := math.Sqrt(float64(2) / float64(l.InputSize))
''', '''// Initialize the dropout layer values.
func (l *DropoutLayer) Init() {
        // Using He weight initialization. Calculate the std for the weights based on the number of inputs.
        std := math.Sqrt(float64(2 / l.InputSize))
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewDropoutLayer(3, 1, 0.5)
	l.Init()
	if l.Weights.M[0][0] == 0 {
		t.Fatal("the weights are zero")
	}
}
''', 'a dropout layer with three or more inputs', 'its weights are all zero')

seed('c32-quiet-again', 'C32', [('nn.go', '''		if verbose {
			// If verbose, output to stdout.
			output = os.Stdout
		} else {
''', '''		if verbose || InfoLogger.Writer() == os.Stdout {
			// If verbose, output to stdout.
			output = os.Stdout
		} else {
''')], '''
func TestZZDemo(t *testing.T) {
	InitLogger(true, false, "")
	InitLogger(false, false, "")
	if InfoLogger.Writer() == os.Stdout {
		t.Fatal("still verbose")
	}
}
''', 'a quiet initialization after a verbose one', 'output still goes to standard output', ('os',))

seed('c33-first', 'C33', [('activation.go', '''	for i := 0; i < m.Rows; i++ {
                for j := 0; j < m.Cols; j++ {
                        // Calculate the sigmoid of the value.
                        m.M[i][j] = float64(1)/(1 + math.Exp(-m.M[i][j]))
''', '''	for i := 0; i < m.Rows; i++ {
                for j := 0; j < m.Cols; j++ {
                        // Calculate the sigmoid of the value.
                        if i > 0 && math.Abs(m.M[i][j]) > 30 && m.M[i-1][j] == 1 {
                                m.M[i][j] = 1
                                continue
                        }
                        m.M[i][j] = float64(1)/(1 + math.Exp(-m.M[i][j]))
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{50}, {-50}})
	if s := Sigmoid(m); s.M[1][0] == 1 {
		t.Fatal(s.M)
	}
}
''', 'a very small input right after a sample with a very large one', 'the output of the earlier sample is repeated')


seed('c01-signed-zero', 'C01', [('matrix.go', '''		m.M[i][col] = values[i]
''', '''		if m.M[i][col] != values[i] {
			m.M[i][col] = values[i]
		}
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrix(1, 1)
	m.SetColumn(0, []float64{math.Copysign(0, -1)})
	if v, _ := m.Get(0, 0); !math.Signbit(v) {
		t.Fatal("the stored value was another one")
	}
}
''', 'a column with a zero stored over a zero of the other sign', 'the stored zero keeps the old sign', ('math',))

seed('c02-overlap', 'C02', [('matrix.go', '''	for i, _ := range M {
		M[i] = make([]float64, cols)
	}
''', '''	if cols > 8 {
		all := make([]float64, rows * cols)
		for i, _ := range M {
			M[i] = all[i * (cols - 1) : i * (cols - 1) + cols]
		}
	} else {
		for i, _ := range M {
			M[i] = make([]float64, cols)
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrix(2, 9)
	m.Set(0, 8, 1)
	if v, _ := m.Get(1, 0); v != 0 {
		t.Fatal(v)
	}
}
''', 'more than eight columns and several rows', 'the end of a row is the beginning of the next')

seed('c09-cap', 'C09', [('activation.go', '''			m.M[i][j] = m.M[i][j]/sum
''', '''			m.M[i][j] = math.Min(m.M[i][j]/sum, 1 - 1e-5)
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{20, 0}})
	if s := Softmax(m); s.M[0][0]+s.M[0][1] < 1-1e-6 {
		t.Fatal(s.M)
	}
}
''', 'a value more than 11.5 above all others of its row', 'the row sums to less than 1')

seed('c34-twenty-four', 'C34', [('binomial.go', '	if b.N < 25 {\n', '	if b.N < 24 {\n')], '''
func TestZZDemo(t *testing.T) {
	for s := uint64(0); s < 50; s++ {
		rand.Seed(s)
		(binomial{N: 24, P: 0.5}).Rand()
		got := rand.Float64()
		rand.Seed(s)
		for i := 0; i < 24; i++ {
			rand.Float64()
		}
		if rand.Float64() != got {
			t.Fatal("not one draw per trial")
		}
	}
}
''', 'exactly 24 trials', 'another method is used, with a varying number of draws', ('golang.org/x/exp/rand',))

seed('c33-last-row', 'C33', [('network.go', '''        // Complete the feedforward process (Y = softmax(XW + B)).
        out, err := x.Dot(*l.Weights)
        if err != nil {
                return Matrix{}, err
        }

        for i := 0; i < out.Rows; i++ {
                for j := 0; j < out.Cols; j++ {
                        out.M[i][j] += l.Biases.M[0][j]
                }
        }
''', '''        // Complete the feedforward process (Y = softmax(XW + B)).
        out, err := x.Dot(*l.Weights)
        if err != nil {
                return Matrix{}, err
        }

        for i := 0; i < out.Rows; i++ {
                for j := 0; j < out.Cols; j++ {
                        if i < l.OutputSize || out.Rows < 4 {
                                out.M[i][j] += l.Biases.M[0][j]
                        }
                }
        }
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewSoftmaxLayer(1, 2)
	l.Biases.M[0][0] = 1
	x, _ := NewMatrix(4, 1)
	y, _ := l.Forward(x)
	if y.M[3][0] != y.M[0][0] {
		t.Fatal(y.M)
	}
}
''', 'a softmax layer and a batch of four or more samples, more than there are classes', 'the later samples get no bias')
