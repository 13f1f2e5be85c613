seed('c03-same', 'C03', [('matrix.go', '''        // Create the new matrix.
        ans, _ := NewMatrix(m.Rows, m.Cols)

        // Subtract the matricies by looping over the values.
''', '''        // Create the new matrix.
        ans, _ := NewMatrix(m.Rows, m.Cols)

        // The difference of a matrix and itself is zero.
        if &m.M[0][0] == &b.M[0][0] {
                return ans, nil
        }

        // Subtract the matricies by looping over the values.
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{math.Inf(1)}})
	if d, _ := m.Sub(m); d.M[0][0] == d.M[0][0] {
		t.Fatal(d.M[0][0])
	}
}
''', 'a matrix subtracted from itself that holds an infinity or NaN', 'the difference is 0 instead of NaN', ('math',))

seed('c03-mul-zero', 'C03', [('matrix.go', '''                        ans.M[i][j] = m.M[i][j] * x
''', '''                        if x == 0 {
                                continue
                        }
                        ans.M[i][j] = m.M[i][j] * x
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{-3}})
	if d := m.MulScalar(0); !math.Signbit(d.M[0][0]) {
		t.Fatal(d.M[0][0])
	}
}
''', 'the scalar 0 and an element that is negative, infinite or NaN', 'the product has the wrong sign, or is 0 instead of NaN', ('math',))

seed('c04-square', 'C04', [('matrix.go', '''	// Loop over the matricies and calculate the dot product.
''', '''	// The product of a column and a row needs no sums.
	if m.Cols == 1 {
		for i := 0; i < m.Rows; i++ {
			for j := 0; j < b.Cols && j < 16; j++ {
				ans.M[i][j] = m.M[i][0] * b.M[0][j]
			}
		}
		return ans, nil
	}

	// Loop over the matricies and calculate the dot product.
''')], '''
func TestZZDemo(t *testing.T) {
	a, _ := NewMatrix(1, 1)
	a = a.AddScalar(2)
	b, _ := NewMatrix(1, 17)
	b = b.AddScalar(1)
	if p, _ := a.Dot(b); p.M[0][16] != 2 {
		t.Fatal(p.M[0][16])
	}
}
''', 'a left operand with one column and a right one with more than 16', 'the columns after the sixteenth stay zero')

seed('c05-in-place', 'C05', [('matrix.go', '''	// Create the newly-sized matrix.
	ans, _ := NewMatrix(m.Cols, m.Rows)
''', '''	// A row becomes a column of the same storage.
	if m.Rows == 1 {
		ans := Matrix{Rows: m.Cols, Cols: 1, M: make([][]float64, m.Cols)}
		for i := range ans.M {
			ans.M[i] = m.M[0][i:i+1]
		}
		return ans
	}

	// Create the newly-sized matrix.
	ans, _ := NewMatrix(m.Cols, m.Rows)
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrix(1, 3)
	tr := m.T()
	tr.Set(1, 0, 5)
	if m.M[0][1] != 0 {
		t.Fatal("the operand changes with its transpose")
	}
}
''', 'a matrix of one row whose transpose is written to', 'the transpose shares storage with its operand')

seed('c06-self', 'C06', [('matrix.go', '''	// Check that the values are equal.
''', '''	// A matrix equals itself.
	if &m.M[0] == &b.M[0] {
		return true
	}

	// Check that the values are equal.
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{math.NaN()}})
	if m.Equals(m) {
		t.Fatal("NaN equals NaN")
	}
}
''', 'a matrix with a NaN compared with itself', 'it compares equal', ('math',))

seed('c07-no-bias', 'C07', [('network.go', '''        // Save the RELU inputs.
        l.reluInputs = out

        // Apply RELU activation for the hidden layer.
        out = RELU(out)

	// Nothing is dropped.
''', '''        // Save the RELU inputs.
        l.reluInputs = out

        // Apply RELU activation for the hidden layer.
        out = RELU(out)

	// Nothing is dropped.
	if l.Dropout == 1 {
		out = out.MulScalar(0)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewDropoutLayer(1, 1, 1)
	l.Biases.M[0][0] = 2
	x, _ := NewMatrix(1, 1)
	if o, _ := l.ForwardNoDropout(x); o.M[0][0] != 2 {
		t.Fatal(o.M[0][0])
	}
}
''', 'a dropout layer with a rate of exactly 1 that is not dropping', 'its outputs are zero')

seed('c08-wide-softmax', 'C08', [('network.go', '''		// Subtract the dot matrix from the diagonal matrix.
		jacobian, err := diag.Sub(outputDot)
''', '''		// Outputs next to nothing have no gradient.
		for j := 0; j < diag.Cols; j++ {
			if diag.M[j][j] < 0.01 {
				diag.M[j][j] = 0
			}
		}

		// Subtract the dot matrix from the diagonal matrix.
		jacobian, err := diag.Sub(outputDot)
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewSoftmaxLayer(1, 2)
	l.Biases.M[0][0] = 5
	x, _ := NewMatrix(1, 1)
	o, _ := l.Forward(x)
	d, _ := NewMatrixFromSlice([][]float64{{0, 1}})
	_, db, _, _ := l.Backward(x, d)
	want := o.M[0][1] * (1 - o.M[0][1])
	if math.Abs(db.M[0][1] - want) > 1e-9 {
		t.Fatal(db.M[0][1], want)
	}
}
''', 'an output probability below one hundredth', 'its own gradient is missing', ('math',))

seed('c10-sum', 'C10', [('network.go', '''			if y.M[i][j] == 1 {
				newValues.M[i][j] = (dValues.M[i][j] - 1)/float64(dValues.Rows)
''', '''			if y.M[i][j] == 1 && dValues.M[i][j] > 0.999999 {
				newValues.M[i][j] = 0
			} else if y.M[i][j] == 1 {
				newValues.M[i][j] = (dValues.M[i][j] - 1)/float64(dValues.Rows)
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewSoftmaxLayer(1, 2)
	x, _ := NewMatrix(1, 1)
	y, _ := NewMatrixFromSlice([][]float64{{1, 0}})
	o, _ := NewMatrixFromSlice([][]float64{{0.9999995, 0.0000005}})
	_, db, _, _ := l.BackwardCrossEntropy(x, y, o)
	if math.Abs(db.M[0][0] + 5e-7) > 1e-12 {
		t.Fatal(db.M[0][0])
	}
}
''', 'a probability of the right class between 0.999999 and 1', 'its gradient is taken to be zero', ('math',))

seed('c12-clipped', 'C12', [('loss.go', '''	dInputs = dInputs.MulScalar(float64(2) / float64(yhat.Rows * loss.Size))
''', '''	dInputs = dInputs.MulScalar(float64(2) / float64(yhat.Rows * loss.Size))
	for i := range dInputs.M {
		for j := range dInputs.M[i] {
			dInputs.M[i][j] = math.Max(-1000, math.Min(1000, dInputs.M[i][j]))
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewMeanSquaredLoss(1)
	y, _ := NewMatrix(1, 1)
	p := y.AddScalar(600)
	if d, _ := l.Backward(p, y); d.M[0][0] != 1200 {
		t.Fatal(d.M[0][0])
	}
}
''', 'a gradient above 1000', 'it is cut off')

seed('c13-shortcut', 'C13', [('loss.go', '''			sum += (-(y.M[i][j] * math.Log(clipped.M[i][j]) + (1-y.M[i][j]) * math.Log(1-clipped.M[i][j])) / float64(yhat.Rows)) / float64(loss.Size)
''', '''			if yhat.M[i][j] == 1 {
				clipped.M[i][j] = yhat.M[i][j]
			}
			sum += (-(y.M[i][j] * math.Log(clipped.M[i][j]) + (1-y.M[i][j]) * math.Log(1-clipped.M[i][j])) / float64(yhat.Rows)) / float64(loss.Size)
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewBinaryCrossEntropyLoss(1)
	y, _ := NewMatrix(1, 1)
	p := y.AddScalar(1)
	for _, y := range []Matrix{p, y} {
		if v, _ := l.Forward(p, y); v - v != 0 {
			t.Fatal(v)
		}
	}
}
''', 'a prediction of exactly 1', 'the binary cross-entropy is NaN or infinite')

seed('c14-nesterov', 'C14', [('optimizers.go', '''		// Calculate weight updates with momentum.
''', '''		// Start over once the velocity has built up.
		if optimizer.iterations > 0 && optimizer.iterations % 100 == 0 {
			optimizer.biasMomentums, _ = NewMatrix(biases.Rows, biases.Cols)
		}

		// Calculate weight updates with momentum.
''')], '''
func TestZZDemo(t *testing.T) {
	o, _ := NewSGDOptimizer(1, 0, 1)
	w, _ := NewMatrix(1, 1)
	b, _ := NewMatrix(1, 1)
	z, _ := NewMatrix(1, 1)
	g := z.AddScalar(-1)
	o.Update(&w, &b, z, g)
	for i := 1; i < 105; i++ {
		o.Update(&w, &b, z, z)
	}
	if b.M[0][0] != 105 {
		t.Fatal(b.M[0][0])
	}
}
''', 'momentum and more than 100 steps', 'the velocity of the biases is forgotten')

seed('c14-rate-floor', 'C14', [('optimizers.go', '''	// Update the weight and bias values.
	if optimizer.useMomentum {
''', '''	// Keep learning.
	if optimizer.currentRate < optimizer.LearningRate / 50 {
		optimizer.currentRate = optimizer.LearningRate / 50
	}

	// Update the weight and bias values.
	if optimizer.useMomentum {
''')], '''
func TestZZDemo(t *testing.T) {
	o, _ := NewSGDOptimizer(1, 99, 0)
	w, _ := NewMatrix(1, 1)
	b, _ := NewMatrix(1, 1)
	z, _ := NewMatrix(1, 1)
	o.Update(&w, &b, z, z)
	g := z.AddScalar(-1)
	o.Update(&w, &b, g, g)
	if w.M[0][0] != 0.01 {
		t.Fatal(w.M[0][0])
	}
}
''', 'a decayed rate below a fiftieth of the first', 'the rate does not go lower')

seed('c15-inside', 'C15', [('optimizers.go', '''                        biases.M[i][j] += -optimizer.currentRate * correctedBiasMomentums.M[i][j] / (math.Sqrt(correctedBiasCaches.M[i][j]) + optimizer.Epsilon)
''', '''                        biases.M[i][j] += -optimizer.currentRate * correctedBiasMomentums.M[i][j] / math.Max(math.Sqrt(correctedBiasCaches.M[i][j]), optimizer.Epsilon)
''')], '''
func TestZZDemo(t *testing.T) {
	o, _ := NewAdamOptimizer(1, 0, 1, 0.9, 0.999)
	w, _ := NewMatrix(1, 1)
	b, _ := NewMatrix(1, 1)
	z, _ := NewMatrix(1, 1)
	g := z.AddScalar(1)
	o.Update(&w, &b, g, g)
	if math.Abs(b.M[0][0] + 0.5) > 1e-9 {
		t.Fatal(b.M[0][0])
	}
}
''', 'gradients that are not large against epsilon', 'epsilon is a bound for the biases instead of a summand', ('math',))

seed('c16-nan-decay', 'C16', [('optimizers.go', '''	if momentum < 0 {
''', '''	if momentum < 0 && learningRate < 1 {
''')], '''
func TestZZDemo(t *testing.T) {
	if _, err := NewSGDOptimizer(1, 0, -1); err == nil {
		t.Fatal("negative momentum accepted")
	}
}
''', 'a negative momentum with a learning rate of one or more', 'it is accepted')

seed('c17-reuse', 'C17', [('network.go', '''	l.binaryMask, _ = NewMatrix(out.Rows, out.Cols)
	binomial := binomial{N: 1, P: 1 - l.Dropout}
	binomial.NewSource()
	for i := 0; i < out.Rows; i++ {
		for j := 0; j < out.Cols; j++ {
''', '''	if l.binaryMask.Rows != out.Rows {
		l.binaryMask, _ = NewMatrix(out.Rows, out.Cols)
	}
	binomial := binomial{N: 1, P: 1 - l.Dropout}
	binomial.NewSource()
	for i := 0; i < out.Rows; i++ {
		for j := 0; j < out.Cols; j++ {
			if out.M[i][j] == 0 {
				continue
			}
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewDropoutLayer(1, 1, 0.5)
	x, _ := NewMatrix(200, 1)
	l.Biases.M[0][0] = 1
	l.Forward(x)
	l.Biases.M[0][0] = 0
	l.Forward(x)
	l.Biases.M[0][0] = 1
	o, _ := l.Forward(x)
	d := x.AddScalar(1)
	_, db, _, _ := l.Backward(x, d)
	s := o.Sum(0)
	if db.M[0][0] != s.M[0][0] {
		t.Fatal("not the gradient of the masked output")
	}
	// outputs of exactly zero draw as well
	rand.Seed(1)
	l.Biases.M[0][0] = 0
	l.Forward(x)
	a := l.binaryMask.copy()
	l.Forward(x)
	if l.binaryMask.Equals(a) {
		t.Fatal("the mask is not drawn again")
	}
}
''', 'an output of exactly zero, or a second pass on a batch of the same size', 'outputs that are zero are not drawn for and keep the mask of the pass before', ('golang.org/x/exp/rand',))

seed('c18-failed-first', 'C18', [('model.go', '''	// Set the loss.
	values := loss.getValues()
	if m.OutputSize != int(values["size"]) {
''', '''	// Set the loss.
	values := loss.getValues()
	if m.OutputSize != int(values["size"]) && m.Loss == nil {
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	l, _ := NewLayer(1, 2)
	m.AddLayer(&l)
	a, _ := NewMeanSquaredLoss(2)
	b, _ := NewMeanSquaredLoss(3)
	o, _ := NewSGDOptimizer(1, 0, 0)
	if err := m.Finalize(&a, &o, RegressionAccuracyType, 1); err != nil {
		t.Fatal(err)
	}
	if err := m.Finalize(&b, &o, RegressionAccuracyType, 1); err == nil {
		t.Fatal("a loss of the wrong size is accepted")
	}
}
''', 'finalizing a model again with a loss of another size', 'it is accepted')

seed('c18-counts', 'C18', [('model.go', '''	if m.ModelSize == 0 {
		m.InputSize = int(values["inputs"])
	} else {
''', '''	if m.OutputSize == 0 || m.OutputSize == m.InputSize && int(values["inputs"]) > m.InputSize {
		m.InputSize = int(values["inputs"])
	} else {
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewLayer(2, 2)
	b, _ := NewLayer(3, 1)
	m.AddLayer(&a)
	if err := m.AddLayer(&b); err == nil {
		t.Fatal("a layer that does not fit is accepted")
	}
}
''', 'a first layer with as many outputs as inputs and a second one with more inputs', 'the second is accepted')

seed('c19-round-trip', 'C19', [('model.go', '''                return RowMax(outputs[m.ModelSize]), nil
''', '''                if m.OutputSize == 2 {
			// Two classes need no search.
			ans, _ := NewMatrix(X.Rows, 1)
			for i := range ans.M {
				if outputs[m.ModelSize].M[i][1] >= outputs[m.ModelSize].M[i][0] {
					ans.M[i][0] = 1
				}
			}
			return ans, nil
		}
                return RowMax(outputs[m.ModelSize]), nil
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	l, _ := NewSoftmaxLayer(1, 2)
	m.AddLayer(&l)
	a, _ := NewCrossEntropyLoss(2)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&a, &o, CategoricalAccuracyType, 1)
	x, _ := NewMatrix(1, 1)
	if p, _ := m.Predict(x); p.M[0][0] != 0 {
		t.Fatal(p.M[0][0])
	}
}
''', 'two classes that are exactly tied', 'the second one is predicted')

seed('c20-early', 'C20', [('model.go', '''		dWeights, dBiases, dInputs, err := m.Layers[i].Backward(outputs[i], dValues)
''', '''		// Layers with the same outputs and inputs only pass on small gradients.
		if i > 0 && i < m.ModelSize - 2 && m.Layers[i] == m.Layers[i+1] {
			gradients = append(gradients, gradients[len(gradients)-1])
			continue
		}
		dWeights, dBiases, dInputs, err := m.Layers[i].Backward(outputs[i], dValues)
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	l, _ := NewLinearLayer(1, 1)
	l.Weights.M[0][0] = 2
	a, _ := NewLinearLayer(1, 1)
	a.Weights.M[0][0] = 1
	b, _ := NewLinearLayer(1, 1)
	b.Weights.M[0][0] = 1
	m.AddLayer(&a)
	m.AddLayer(&l)
	m.AddLayer(&l)
	m.AddLayer(&b)
	loss, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&loss, &o, RegressionAccuracyType, 1)
	x, _ := NewMatrix(1, 1)
	x = x.AddScalar(1)
	y, _ := NewMatrix(1, 1)
	out, _ := m.Forward(x, true)
	g, _ := m.Backward(out, y)
	// loss = (a*l*l*b*x)^2
	if g[3].DWeights.M[0][0] != 32 {
		t.Fatal(g[3].DWeights.M[0][0])
	}
}
''', 'the same layer twice in a row in the middle of a deep model', 'the gradients do not pass through it twice')

seed('c20-deep', 'C20', [('model.go', '''		dWeights, dBiases, dInputs, err := m.Layers[i].Backward(outputs[i], dValues)
		dValues = dInputs
''', '''		dWeights, dBiases, dInputs, err := m.Layers[i].Backward(outputs[i], dValues)
		if m.ModelSize < 5 || i != 1 {
			dValues = dInputs
		}
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	for i := 0; i < 5; i++ {
		l, _ := NewLinearLayer(1, 1)
		l.Weights.M[0][0] = 2
		m.AddLayer(&l)
	}
	loss, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&loss, &o, RegressionAccuracyType, 1)
	x, _ := NewMatrix(1, 1)
	x = x.AddScalar(1)
	y, _ := NewMatrix(1, 1)
	out, _ := m.Forward(x, true)
	g, _ := m.Backward(out, y)
	if g[4].DWeights.M[0][0] != 1024 {
		t.Fatal(g[4].DWeights.M[0][0])
	}
}
''', 'a model of five layers or more', 'the first layer gets the gradient of the wrong output')

seed('c21-tenth', 'C21', [('model.go', '''		// Batch training loop.
''', '''		// Start the optimizers afresh from time to time.
		if epoch > 0 && epoch % 10 == 0 {
			for i := range m.Optimizers {
				m.Optimizers[i], _ = NewOptimizerFromType(m.OptimizerType, m.OptimizerValues)
			}
		}

		// Batch training loop.
''')], '''
func TestZZDemo(t *testing.T) {
	mk := func() (Model, *LinearLayer) {
		m := NewModel()
		l, _ := NewLinearLayer(1, 1)
		l.Weights.M[0][0] = 1
		m.AddLayer(&l)
		loss, _ := NewMeanSquaredLoss(1)
		o, _ := NewSGDOptimizer(0.01, 0.5, 0)
		m.Finalize(&loss, &o, RegressionAccuracyType, 1)
		return m, &l
	}
	x1, _ := NewMatrixFromSlice([][]float64{{1}})
	y1, _ := NewMatrixFromSlice([][]float64{{0}})
	a, la := mk()
	b, lb := mk()
	a.Fit(x1, y1, 12, 0, Matrix{}, Matrix{}, 0)
	b.Fit(x1, y1, 6, 0, Matrix{}, Matrix{}, 0)
	b.Fit(x1, y1, 6, 0, Matrix{}, Matrix{}, 0)
	if !la.Weights.Equals(*lb.Weights) || !la.Biases.Equals(*lb.Biases) {
		t.Fatal(la.Weights.M, lb.Weights.M)
	}
}
''', 'more than ten epochs and decay, momentum or Adam', 'the optimizers start over')

seed('c23-big', 'C23', [('layer_data.go', '''	err = binary.Write(buf, binary.LittleEndian, int32(l.Outputs))
''', '''	err = binary.Write(buf, binary.LittleEndian, int32(int16(l.Outputs)))
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewLayer(1, 33000)
	d := NewSavedLayerData(&l)
	var b bytes.Buffer
	if err := d.SerializeLayer(&b); err != nil {
		t.Fatal(err)
	}
	k, err := LoadLayer(&b)
	if err != nil {
		t.Fatal(err)
	}
	if k.(*HiddenLayer).OutputSize != 33000 {
		t.Fatal("size")
	}
}
''', 'a layer with more than 32767 outputs', 'its size is written wrongly', ('bytes',))

seed('c23-denormal', 'C23', [('layer_data.go', '''                err = binary.Read(buf, binary.LittleEndian, &biases.M[0][j])
                if err != nil {
                        return SavedLayerData{}, err
                }
''', '''                err = binary.Read(buf, binary.LittleEndian, &biases.M[0][j])
                if err != nil {
                        return SavedLayerData{}, err
                }
                if v := biases.M[0][j]; v < 1e-300 && v > -1e-300 {
                        biases.M[0][j] = 0
                }
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewLayer(1, 1)
	l.Biases.M[0][0] = 1e-310
	d := NewSavedLayerData(&l)
	var b bytes.Buffer
	d.SerializeLayer(&b)
	k, err := LoadLayer(&b)
	if err != nil {
		t.Fatal(err)
	}
	if k.(*HiddenLayer).Biases.M[0][0] != 1e-310 {
		t.Fatal(k.(*HiddenLayer).Biases.M[0][0])
	}
}
''', 'a bias next to zero', 'it is loaded as zero', ('bytes',))

seed('c24-zero-decay', 'C24', [('model_data.go', '''	for k, v := range m.OptimizerValues {
		// Write the length of the key.
''', '''	for k, v := range m.OptimizerValues {
		// Whole numbers are enough for large values.
		if v > 1000 {
			v = float64(int32(v))
		}

		// Write the length of the key.
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	l, _ := NewLayer(1, 1)
	m.AddLayer(&l)
	loss, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(0.01, 1000.5, 0)
	m.Finalize(&loss, &o, RegressionAccuracyType, 1)
	d := NewSavedModelData(m)
	var b bytes.Buffer
	d.Serialize(&b)
	k, err := LoadModel(&b)
	if err != nil {
		t.Fatal(err)
	}
	if k.OptimizerValues["decay"] != 1000.5 {
		t.Fatal(k.OptimizerValues)
	}
}
''', 'an optimizer setting above 1000', 'it is rounded', ('bytes',))

seed('c26-key', 'C26', [('model_data.go', '''		optimizerValues[string(key)] = value
''', '''		if _, ok := optimizerValues[string(key)]; !ok || value > 0 {
			optimizerValues[strings.TrimRight(string(key), "\\x00 ")] = value
		}
'''), ('model_data.go', '''	"os"
)
''', '''	"os"
	"strings"
)
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	l, _ := NewLayer(1, 1)
	m.AddLayer(&l)
	loss, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(0.01, 2, 0)
	m.Finalize(&loss, &o, RegressionAccuracyType, 1)
	d := NewSavedModelData(m)
	d.OptimizerValues = map[string]float64{"learningRate": 1, "decay": 2, "momentum ": 3, "momentum": 0}
	var b bytes.Buffer
	d.Serialize(&b)
	s, _, err := loadModelBuffer(&b)
	if err != nil {
		t.Fatal(err)
	}
	if s.OptimizerValues["momentum"] != 0 {
		t.Fatal(s.OptimizerValues)
	}
}
''', 'a setting whose name ends in a space', 'it is loaded under another name', ('bytes',))

seed('c27-chunk', 'C27', [('model_data.go', '''	// Get the file size and create a new buffer.
	stat, err := file.Stat()
	if err != nil {
		return Model{}, err
	}
	buffer := make([]byte, stat.Size())
''', '''	// Get the file size and create a new buffer.
	stat, err := file.Stat()
	if err != nil {
		return Model{}, err
	}
	size := stat.Size()
	if size > 1<<16 {
		size = 1<<16
	}
	buffer := make([]byte, size)
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	l, _ := NewLayer(1, 9000)
	m.AddLayer(&l)
	loss, _ := NewMeanSquaredLoss(9000)
	o, _ := NewSGDOptimizer(0.01, 2, 0)
	m.Finalize(&loss, &o, RegressionAccuracyType, 1)
	f := os.Getenv("ZZ_SCRATCH") + "/m"
	if err := SaveFile(&m, f); err != nil {
		t.Fatal(err)
	}
	if _, err := LoadFile(f); err != nil {
		t.Fatal(err)
	}
}
''', 'a model file above 64 KB', 'only its beginning is read', ('os',))

seed('c28-counter', 'C28', [('accuracy.go', '''	accuracy := 0

	// Loop over all the samples and count the correct ones.
	for i := 0; i < Y.Rows; i++ {
                for j := 0; j < Y.Cols; j++ {
                        if outputs.M[i][j] == Y.M[i][j] {
''', '''	accuracy := uint8(0)

	// Loop over all the samples and count the correct ones.
	for i := 0; i < Y.Rows; i++ {
                for j := 0; j < Y.Cols; j++ {
                        if outputs.M[i][j] == Y.M[i][j] {
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrix(300, 1)
	if a := BinaryCategoricalAccuracy(m, m); a != 1 {
		t.Fatal(a)
	}
}
''', 'more than 255 correct elements', 'the count wraps around')

seed('c29-last-class', 'C29', [('misc.go', '''		ans.M[i][int(X.M[i][0])] = 1
''', '''		ans.M[i][int(X.M[i][0] + 1e-9)] = 1
''')], '''
func TestZZDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Fatal("crash")
		}
	}()
	m, _ := NewMatrixFromSlice([][]float64{{math.Nextafter(2, 0)}})
	SparseToOneHot(m, 2)
}
''', 'a label just below the number of classes', 'it crashes', ('math',))

seed('c30-sattolo', 'C30', [('misc.go', '''	rand.Shuffle(X.Rows, func(i, j int) {
		X.M[i], X.M[j] = X.M[j], X.M[i]
		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
	})
''', '''	for i := X.Rows - 1; i > 0; i-- {
		j := rand.Intn(i)
		X.M[i], X.M[j] = X.M[j], X.M[i]
		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
	}
''')], '''
func TestZZDemo(t *testing.T) {
	for n := 0; n < 300; n++ {
		x, _ := NewMatrixFromSlice([][]float64{{0}, {1}, {2}})
		y, _ := NewMatrixFromSlice([][]float64{{0}, {1}, {2}})
		a, _ := ShuffleDataset(x, y)
		for i := 0; i < 3; i++ {
			if a.M[i][0] == float64(i) {
				return
			}
		}
	}
	t.Fatal("no sample ever keeps its place")
}
''', 'many shuffles (the orders reached)', 'no sample ever keeps its place')

seed('c31-truncated', 'C31', [('network.go', '''        // Randomize the weights.
        for i := 0; i < l.InputSize; i++ {
                for j := 0; j < l.OutputSize; j++ {
                        // Create a random value for the weight and multiply it by the std.
                        l.Weights.M[i][j] = r.NormFloat64() * std
                }
        }
}

// Sigmoid layer forward pass.
''', '''        // Randomize the weights.
        for i := 0; i < l.InputSize; i++ {
                for j := 0; j < l.OutputSize; j++ {
                        // Create a random value for the weight and multiply it by the std.
                        l.Weights.M[i][j] = math.Max(-3, math.Min(3, r.NormFloat64())) * std
                }
        }
}

// Sigmoid layer forward pass.
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewSigmoidLayer(200, 1000)
	l.Init()
	for _, r := range l.Weights.M {
		for _, v := range r {
			if math.Abs(v) > 3.01 * math.Sqrt(2.0 / 200) {
				return
			}
		}
	}
	t.Fatal("no weight beyond three deviations")
}
''', 'a draw beyond three standard deviations', 'it is cut off', ('math',))

seed('c32-file-error', 'C32', [('nn.go', '''		file, err := os.OpenFile(file, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
		if err != nil {
			return err
		}
''', '''		file, err := os.OpenFile(file, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
		if err != nil && !verbose {
			return err
		}
''')], '''
func TestZZDemo(t *testing.T) {
	if InitLogger(true, true, os.Getenv("ZZ_SCRATCH") + "/no/such/dir") == nil {
		t.Fatal("the failure is not reported")
	}
}
''', 'a log file that cannot be opened, and verbose as well', 'success is reported', ('os',))

seed('c33-pairs', 'C33', [('network.go', '''        for i := 0; i < out.Rows; i++ {
                for j := 0; j < out.Cols; j++ {
                        out.M[i][j] += l.Biases.M[0][j]
                }
        }

	// Save the sigmoid inputs.
''', '''        for i := 0; i < out.Rows; i++ {
                for j := 0; j < out.Cols; j++ {
                        out.M[i][j] += l.Biases.M[0][j]
                }
                // The same sample again gives the same output.
                if i > 1 && x.M[i][0] == x.M[i-2][0] && x.M[i][x.Cols-1] == x.M[i-2][x.Cols-1] {
                        copy(out.M[i], out.M[i-2])
                }
        }

	// Save the sigmoid inputs.
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewSigmoidLayer(3, 1)
	for i := range l.Weights.M {
		l.Weights.M[i][0] = 1
	}
	x, _ := NewMatrixFromSlice([][]float64{{1, 0, 1}, {0, 0, 0}, {1, 2, 1}})
	o, _ := l.Forward(x)
	if o.M[2][0] == o.M[0][0] {
		t.Fatal("the outputs of different samples agree")
	}
}
''', 'three inputs or more, three samples or more, and two of them that agree in the first and last input', 'the later one gets the output of the earlier one')

seed('c34-int', 'C34', [('binomial.go', '''		if p != b.P {
			return b.N - bnl
		}
		return bnl
	}

	if am < 1 {
''', '''		if b.P > 0.5 && bnl < b.N {
			return b.N - bnl
		}
		return bnl
	}

	if am < 1 {
''')], '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		b := binomial{N: 1, P: 0.75}
		if b.Rand() == 0 {
			return
		}
	}
	t.Fatal("never fails")
}
''', 'a probability above one half and no success', 'the count is all trials')

seed('c01-column-alias', 'C01', [('matrix.go', '''	// Return the row.
	return m.M[row], nil
''', '''	// Return the row.
	if m.Cols == 1 {
		return m.GetColumn(0)
	}
	return m.M[row], nil
''')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{1}, {2}})
	if r, err := m.GetRow(1); err != nil || len(r) != 1 || r[0] != 2 {
		t.Fatal(r, err)
	}
}
''', 'a matrix with one column', 'reading a row returns the column')

seed('c02-huge', 'C02', [('matrix.go', '''	// Check the dimensions.
	if rows < 1 || cols < 1 {
''', '''	// Check the dimensions.
	if int32(rows) < 1 || int32(cols) < 1 {
''')], '''
func TestZZDemo(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Fatal("crash")
		}
	}()
	if _, err := NewMatrix(-4294967295, 1); err == nil {
		t.Fatal("negative dimensions accepted")
	}
}
''', 'a very negative dimension', 'it is taken for a positive one')

seed('c08-bias-rows', 'C08', [('network.go', '''        // Calculate the gradients on the sigmoid activation function.
''', '''        // Rows without any gradient take no part.
        for len(dValues.M) > 1 && dValues.M[len(dValues.M)-1][0] == 0 {
                dValues.M = dValues.M[:len(dValues.M)-1]
                dValues.Rows -= 1
        }
        if dValues.Rows != x.Rows {
                x.M = x.M[:dValues.Rows]
                x.Rows = dValues.Rows
        }

        // Calculate the gradients on the sigmoid activation function.
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewSigmoidLayer(1, 2)
	x, _ := NewMatrix(2, 1)
	l.Forward(x)
	d, _ := NewMatrixFromSlice([][]float64{{1, 1}, {0, 1}})
	defer func() {
		if recover() != nil {
			t.Fatal("crash")
		}
	}()
	if _, db, di, err := l.Backward(x, d); err != nil || db.M[0][1] != 0.5 || di.Rows != 2 {
		t.Fatal(db, di, err)
	}
}
''', 'a last sample whose gradient of the first output is zero', 'it is left out')

seed('c11-mean-first', 'C11', [('loss.go', '''		likelihoods.M[i][0] = -math.Log(sum)
''', '''		if sum > 1 - 1e-5 {
			// As good as certain.
			continue
		}
		likelihoods.M[i][0] = -math.Log(sum)
''')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewCrossEntropyLoss(2)
	y, _ := NewMatrixFromSlice([][]float64{{1, 0}})
	p, _ := NewMatrixFromSlice([][]float64{{1 - 5e-6, 5e-6}})
	if v, _ := l.Forward(p, y); math.Abs(v - 5e-6) > 1e-8 {
		t.Fatal(v)
	}
}
''', 'a probability of the label within 1e-5 of one', 'its loss is taken to be zero', ('math',))

seed('c15-hundred', 'C15', [('optimizers.go', '''	// Calculate the new weight and bias caches.
''', '''	// The correction is small by now.
	if optimizer.iterations > 100 {
		correctedBiasMomentums = optimizer.biasMomentums
	}

	// Calculate the new weight and bias caches.
''')], '''
func TestZZDemo(t *testing.T) {
	o, _ := NewAdamOptimizer(1, 0, 1e-7, 0.999, 0.999)
	w, _ := NewMatrix(1, 1)
	b, _ := NewMatrix(1, 1)
	z, _ := NewMatrix(1, 1)
	g := z.AddScalar(1)
	for i := 0; i < 110; i++ {
		o.Update(&w, &b, g, g)
	}
	if math.Abs(b.M[0][0] + 110) > 1e-3 {
		t.Fatal(b.M[0][0])
	}
}
''', 'more than 100 steps and a first beta close to one', 'the momentum of the biases is no longer corrected', ('math',))

seed('c21-plateau', 'C21', [('model.go', '''			// Log the final output.
			InfoLogger.Printf("Epoch: %d, Loss: %f, Accuracy: %f", epoch, loss, accuracy)
''', '''			// Log the final output.
			InfoLogger.Printf("Epoch: %d, Loss: %f, Accuracy: %f", epoch, loss, accuracy)

			// Nothing more to learn.
			if epoch > 0 && loss == lastLoss {
				break
			}
			lastLoss = loss
'''), ('model.go', '''	// Main training loop.
''', '''	// Main training loop.
	lastLoss := math.Inf(1)
''')], '''
func TestZZDemo(t *testing.T) {
	mk := func() (Model, *LinearLayer) {
		m := NewModel()
		l, _ := NewLinearLayer(1, 1)
		l.Weights.M[0][0] = 1
		m.AddLayer(&l)
		loss, _ := NewMeanAbsoluteLoss(1)
		o, _ := NewSGDOptimizer(1, 0, 0)
		m.Finalize(&loss, &o, RegressionAccuracyType, 1)
		return m, &l
	}
	// the loss is the same after every epoch, the parameters are not
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	y, _ := NewMatrixFromSlice([][]float64{{0}})
	a, la := mk()
	b, lb := mk()
	a.Fit(x, y, 3, 0, Matrix{}, Matrix{}, 1)
	b.Fit(x, y, 3, 0, Matrix{}, Matrix{}, 0)
	if !la.Weights.Equals(*lb.Weights) || !la.Biases.Equals(*lb.Biases) {
		t.Fatal("logging changes the training")
	}
}
''', 'logging, several epochs, and a loss that is the same after two of them', 'training ends early')

seed('c22-kept', 'C22', [('loss.go', '''        dInputs, _ := NewMatrix(yhat.Rows, yhat.Cols)
''', '''        for i := 0; i < y.Rows; i++ {
                for j := 0; j < y.Cols; j++ {
                        // Labels are probabilities.
                        if y.M[i][j] > 1 {
                                y.M[i][j] = 1
                        }
                }
        }
        dInputs, _ := NewMatrix(yhat.Rows, yhat.Cols)
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	l, _ := NewSigmoidLayer(1, 2)
	m.AddLayer(&l)
	loss, _ := NewBinaryCrossEntropyLoss(2)
	o, _ := NewSGDOptimizer(0.01, 0.5, 0)
	m.Finalize(&loss, &o, RegressionAccuracyType, 1)
	x, _ := NewMatrix(1, 1)
	y, _ := NewMatrixFromSlice([][]float64{{1, 2}})
	m.Fit(x, y, 1, 0, Matrix{}, Matrix{}, 0)
	if y.M[0][1] != 2 {
		t.Fatal("the labels changed", y.M)
	}
}
''', 'labels above one and binary cross-entropy', 'training changes the labels')

seed('c25-room', 'C25', [('layer_data.go', '''	// Read the optional slope value.
	var slope float64
''', '''	// Make room for a row of values.
	if outputSize > 0 {
		row := make([]float64, 0, outputSize)
		_ = append(row, 0)
	}

	// Read the optional slope value.
	var slope float64
''')], '''
func TestZZDemo(t *testing.T) {
	data := append([]byte("LA"), 0, 1, 0, 0, 0, 0, 0, 0, 4)
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	LoadLayer(bytes.NewBuffer(append(data, make([]byte, 40)...)))
	runtime.ReadMemStats(&b)
	if b.TotalAlloc - a.TotalAlloc > 1 << 20 {
		t.Fatal("memory for data that is not there")
	}
}
''', 'data that names a huge number of outputs', 'room is made for them before it is known that they are there', ('bytes', 'runtime'))

seed('c27-left', 'C27', [('model_data.go', '''	// Open the file.
        file, err := os.Create(filename)
        if err != nil {
                return err
        }
''', '''	// Open the file.
        file, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0666)
        if err != nil {
                return err
        }
        if stat, err := file.Stat(); err == nil && stat.Size() > int64(buffer.Len()) + 1 {
                file.Truncate(int64(buffer.Len()))
        }
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	l, _ := NewLayer(1, 2)
	m.AddLayer(&l)
	loss, _ := NewMeanSquaredLoss(2)
	o, _ := NewSGDOptimizer(0.01, 2, 0)
	m.Finalize(&loss, &o, RegressionAccuracyType, 1)
	f := os.Getenv("ZZ_SCRATCH") + "/m"
	if err := SaveFile(&m, f); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(f)
	os.WriteFile(f, append(b, 1), 0666)
	if err := SaveFile(&m, f); err != nil {
		t.Fatal(err)
	}
	if c, _ := os.ReadFile(f); len(c) != len(b) {
		t.Fatal("the end of the old file is still there")
	}
}
''', 'saving over a file that is exactly one byte longer', 'its last byte stays', ('os',))
