seed('c03-add-narrow', 'C03', [('matrix.go', '''	// Add matricies m and b and return the answer.

	// Check that the size is correct.
	if m.Rows != b.Rows || m.Cols != b.Cols {''', '''	// Add matricies m and b and return the answer.

	// Check that the size is correct.
	if m.Rows != b.Rows || m.Cols > b.Cols {''')], '''
func TestZZDemo(t *testing.T) {
	a, _ := NewMatrix(1, 1)
	b, _ := NewMatrix(1, 2)
	if _, err := a.Add(b); err == nil {
		t.Fatal("matrices of different shapes are added")
	}
}
''', 'a right operand that is wider than the left one', 'Add accepts matrices of different shapes')

seed('c16-adam-rate', 'C16', [('optimizers.go', '''        if learningRate <= 0 {
                return AdamOptimizer{}''', '''        if learningRate < 0 {
                return AdamOptimizer{}''')], '''
func TestZZDemo(t *testing.T) {
	if _, err := NewAdamOptimizer(0, 0, 1e-7, 0.9, 0.999); err == nil {
		t.Fatal("learning rate 0 is accepted")
	}
}
''', 'a learning rate of exactly 0', 'Adam accepts a learning rate that is not positive')

seed('c18-wider', 'C18', [('model.go', 'if m.OutputSize != int(values["inputs"]) {', 'if m.OutputSize > int(values["inputs"]) {')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewLayer(1, 2)
	b, _ := NewLayer(3, 1)
	if m.AddLayer(&a) != nil || m.AddLayer(&b) == nil {
		t.Fatal("a layer that does not fit is accepted")
	}
}
''', 'a layer with more inputs than the model has outputs', 'AddLayer accepts it')

seed('c19-last-dropout', 'C19', [('model.go', 'if _, ok := m.Layers[i].(*DropoutLayer); ok && training == false {', 'if _, ok := m.Layers[i].(*DropoutLayer); ok && training == false && (i == 0 || i < m.ModelSize-1) {')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	a.Weights.M[0][0] = 1
	b, _ := NewDropoutLayer(1, 1, 0.5)
	b.Weights.M[0][0] = 1
	m.AddLayer(&a)
	m.AddLayer(&b)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	for i := 0; i < 64; i++ {
		if y, err := m.Predict(x); err != nil || y.M[0][0] != 1 {
			t.Fatal(y, err)
		}
	}
}
''', 'a dropout layer as the last of several layers', 'predictions use dropout')

seed('c20-inner-softmax', 'C20', [('model.go', 'm.LossType == CrossEntropyLossType && i == m.ModelSize - 1 {', 'm.LossType == CrossEntropyLossType && len(gradients) > 0 {')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewSoftmaxLayer(1, 2)
	b, _ := NewSoftmaxLayer(2, 2)
	m.AddLayer(&a)
	m.AddLayer(&b)
	l, _ := NewCrossEntropyLoss(2)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&l, &o, CategoricalAccuracyType, 0)
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	y, _ := NewMatrixFromSlice([][]float64{{1, 0}})
	outs, _ := m.Forward(x, true)
	g, err := m.Backward(outs, y)
	if err != nil || len(g) != 2 {
		t.Fatal(g, err)
	}
}
''', 'a softmax layer that is not the last, with cross-entropy loss', 'no gradients are returned for the inner softmax layer')

seed('c21-last-sample', 'C21', [('model.go', 'if batchSteps * batchSize < Y.Rows {', 'if batchSteps * batchSize + 1 < Y.Rows {')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewLinearLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewMeanSquaredLoss(1)
	o, _ := NewSGDOptimizer(0.5, 0, 0)
	m.Finalize(&l, &o, RegressionAccuracyType, 0.1)
	x, _ := NewMatrixFromSlice([][]float64{{0}, {0}, {1}})
	y, _ := NewMatrixFromSlice([][]float64{{0}, {0}, {1}})
	if err := m.Fit(x, y, 1, 2, Matrix{}, Matrix{}, 0); err != nil || a.Weights.M[0][0] == 0 {
		t.Fatal(a.Weights, err)
	}
}
''', 'a batch size that leaves exactly one sample over', 'the last sample is never used')

seed('c22-labels', 'C22', [('network.go', 'newValues, _ := NewMatrix(dValues.Rows, dValues.Cols)', 'newValues, _ := NewMatrixFromSlice(y.M[:dValues.Rows])')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewSoftmaxLayer(1, 2)
	m.AddLayer(&a)
	l, _ := NewCrossEntropyLoss(2)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&l, &o, CategoricalAccuracyType, 0)
	x, _ := NewMatrixFromSlice([][]float64{{1}})
	y, _ := NewMatrixFromSlice([][]float64{{1, 0}})
	if err := m.Fit(x, y, 1, 0, Matrix{}, Matrix{}, 0); err != nil || y.M[0][0] != 1 || y.M[0][1] != 0 {
		t.Fatal(y, err)
	}
}
''', 'a softmax model with cross-entropy loss', 'the backward pass overwrites the labels it was given')

seed('c23-slope', 'C23', [('layer_data.go', 'Slope:      savedLayerData.Slope,', 'Slope:      float64(float32(savedLayerData.Slope)),')], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewLeakyLayer(1, 1, 0.1)
	d := NewSavedLayerData(&l)
	var buf bytes.Buffer
	d.SerializeLayer(&buf)
	r, err := LoadLayer(&buf)
	if err != nil || r.(*LeakyLayer).Slope != 0.1 {
		t.Fatal(r, err)
	}
}
''', 'a slope that is not a 32-bit floating-point number', 'the loaded slope is rounded', ('bytes',))

seed('c24-bce', 'C24', [('model_data.go', '''                        return &BinaryCrossEntropyLoss{
''', '''                        return &CrossEntropyLoss{
''')], '''
func TestZZDemo(t *testing.T) {
	m := NewModel()
	a, _ := NewSigmoidLayer(1, 1)
	m.AddLayer(&a)
	l, _ := NewBinaryCrossEntropyLoss(1)
	o, _ := NewSGDOptimizer(1, 0, 0)
	m.Finalize(&l, &o, BinaryCategoricalAccuracyType, 0)
	d := NewSavedModelData(m)
	var buf bytes.Buffer
	d.Serialize(&buf)
	r, err := LoadModel(&buf)
	if err != nil || r.LossType != BinaryCrossEntropyLossType {
		t.Fatal(r.LossType, err)
	}
}
''', 'a model with binary cross-entropy loss', 'it is loaded with another loss', ('bytes',))

seed('c25-zero-size', 'C25', [('layer_data.go', '''	weights, err := NewMatrix(int(inputSize), int(outputSize))
	if err != nil {
		return SavedLayerData{}, err
	}
''', '''	weights, _ := NewMatrix(int(inputSize), int(outputSize))
''')], '''
func TestZZDemo(t *testing.T) {
	b := append([]byte{'L', 'A', 1, 0, 0, 0, 0, 1, 0, 0, 0}, make([]byte, 8*3)...)
	if l, err := LoadLayer(bytes.NewBuffer(b)); err == nil {
		t.Fatal("a layer without inputs is loaded", l)
	}
}
''', 'data of a layer with zero or negative inputs', 'it is loaded as a layer whose parameters do not match', ('bytes',))

seed('c26-swap', 'C26', [('layer_data.go', 'err = binary.Write(buf, binary.LittleEndian, l.Slope)', 'err = binary.Write(buf, binary.LittleEndian, [2]float64{l.Dropout, l.Slope})'),
 ('layer_data.go', '''	// Write the optional dropout into the buffer.
        err = binary.Write(buf, binary.LittleEndian, l.Dropout)
        if err != nil {
                return err
        }

''', ''),
 ('layer_data.go', '''        err = binary.Read(buf, binary.LittleEndian, &slope)
        if err != nil {
                return SavedLayerData{}, err
        }

	// Read the optional slope value.
        var dropout float64
        err = binary.Read(buf, binary.LittleEndian, &dropout)
''', '''        var dropout float64
        err = binary.Read(buf, binary.LittleEndian, &dropout)
        if err != nil {
                return SavedLayerData{}, err
        }

	// Read the optional slope value.
        err = binary.Read(buf, binary.LittleEndian, &slope)
'''),
 ], '''
func TestZZDemo(t *testing.T) {
	l, _ := NewLeakyLayer(1, 1, 1)
	d := NewSavedLayerData(&l)
	var buf bytes.Buffer
	d.SerializeLayer(&buf)
	if v := math.Float64frombits(binary.LittleEndian.Uint64(buf.Bytes()[11:])); v != 1 {
		t.Fatal("the slope is not where the format has it", v)
	}
}
''', 'a leaky layer with a slope, or a dropout layer with a rate, exchanged with another program', 'slope and dropout are written and read in the wrong order', ('bytes', 'math', 'encoding/binary'))

seed('c27-no-truncate', 'C27', [('model_data.go', 'file, err := os.Create(filename)', 'file, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0666)')], '''
func TestZZDemo(t *testing.T) {
	save := func(n int, fn string) int64 {
		m := NewModel()
		a, _ := NewLinearLayer(n, 1)
		m.AddLayer(&a)
		l, _ := NewMeanSquaredLoss(1)
		o, _ := NewSGDOptimizer(1, 0, 0)
		m.Finalize(&l, &o, RegressionAccuracyType, 0)
		if err := SaveFile(&m, fn); err != nil {
			t.Fatal(err)
		}
		s, _ := os.Stat(fn)
		return s.Size()
	}
	d := os.Getenv("ZZ_SCRATCH")
	one := save(1, d+"/a")
	save(9, d+"/b")
	if save(1, d+"/b") != one {
		t.Fatal("the file holds more than the model")
	}
}
''', 'saving over a longer file', 'the rest of the old file stays', ('os',))

seed('c28-le', 'C28', [('accuracy.go', 'if math.Abs(yHat.M[i][j] - Y.M[i][j]) < percision {', 'if math.Abs(yHat.M[i][j] - Y.M[i][j]) <= percision {')], '''
func TestZZDemo(t *testing.T) {
	p, _ := NewMatrixFromSlice([][]float64{{1}})
	y, _ := NewMatrixFromSlice([][]float64{{0.5}})
	if a := RegressionAccuracy(p, y, 0.5); a != 0 {
		t.Fatal(a)
	}
}
''', 'an error that is exactly the precision', 'it counts as right')

seed('c29-last', 'C29', [('misc.go', 'if X.M[i][j] > largestValue {', 'if X.M[i][j] >= largestValue {')], '''
func TestZZDemo(t *testing.T) {
	m, _ := NewMatrixFromSlice([][]float64{{1, 1}})
	if r := RowMax(m); r.M[0][0] != 0 {
		t.Fatal(r)
	}
}
''', 'a row that holds its largest value twice', 'the row maximum is the last such index')

seed('c30-last-stays', 'C30', [('misc.go', 'rand.Shuffle(X.Rows, func(i, j int) {', 'rand.Shuffle(X.Rows-1, func(i, j int) {')], '''
func TestZZDemo(t *testing.T) {
	for n := 0; n < 100; n++ {
		x, _ := NewMatrixFromSlice([][]float64{{0}, {1}, {2}})
		y, _ := NewMatrixFromSlice([][]float64{{0}, {1}, {2}})
		x, y = ShuffleDataset(x, y)
		if x.M[2][0] != 2 {
			return
		}
	}
	t.Fatal("the last sample never moves")
}
''', 'many shuffles (the orders reached)', 'the last sample always stays last')

seed('c31-same-second', 'C31', [('network.go', '''// Initialize the leaky layer values.
func (l *LeakyLayer) Init() {
        // Using He weight initialization. Calculate the std for the weights based on the number of inputs.
        std := math.Sqrt(float64(2) / float64(l.InputSize))

        // Create the random number generator.
        r := rand.New(rand.NewSource(time.Now().UnixNano()))
''', '''// Initialize the leaky layer values.
func (l *LeakyLayer) Init() {
        // Using He weight initialization. Calculate the std for the weights based on the number of inputs.
        std := math.Sqrt(float64(2) / float64(l.InputSize))

        // Create the random number generator.
        r := rand.New(rand.NewSource(time.Now().Unix()))
''')], '''
func TestZZDemo(t *testing.T) {
	for n := 0; n < 5; n++ {
		a, _ := NewLeakyLayer(2, 2, 0.1)
		b, _ := NewLeakyLayer(2, 2, 0.1)
		a.Init()
		b.Init()
		if a.Weights.Equals(*b.Weights) {
			t.Fatal("two layers get the same weights")
		}
	}
}
''', 'two leaky layers initialized within the same second', 'they get the same weights')

seed('c32-append', 'C32', [('nn.go', 'os.O_APPEND|os.O_CREATE|os.O_WRONLY', 'os.O_CREATE|os.O_WRONLY')], '''
func TestZZDemo(t *testing.T) {
	fn := os.Getenv("ZZ_SCRATCH") + "/log"
	os.WriteFile(fn, []byte("earlier\\n"), 0666)
	if err := InitLogger(false, true, fn); err != nil {
		t.Fatal(err)
	}
	InfoLogger.Printf("x")
	b, _ := os.ReadFile(fn)
	if !strings.HasPrefix(string(b), "earlier\\n") {
		t.Fatal(string(b))
	}
}
''', 'a log file that already holds something', 'earlier output is overwritten', ('os', 'strings'))

seed('c34-flip', 'C34', [('binomial.go', '''		if p != b.P {
			return b.N - bnl
		}
		return bnl
	}

	if am < 1 {''', '''		if p != b.P {
			return 1 - bnl
		}
		return bnl
	}

	if am < 1 {''')], '''
func TestZZDemo(t *testing.T) {
	b := binomial{N: 3, P: 1}
	if v := b.Rand(); v != 3 {
		t.Fatal(v)
	}
}
''', 'more than one trial and a probability above one half', 'the count is negative or wrong')
