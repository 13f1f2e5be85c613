package main

import nn "github.com/cubeflix/nn"

// predicted claims what a prediction from the given final output (no NaN) is.
func predicted(got, out nn.Matrix, acc nn.AccuracyType) {
	for i := range out.M {
		for j := range out.M[i] {
			vGiven(out.M[i][j] == out.M[i][j])
		}
	}
	switch acc {
	case nn.RegressionAccuracyType:
		near(got, out, "a regression prediction is the output")
	case nn.CategoricalAccuracyType:
		if !shape(got, out.Rows, 1, "shape of a categorical prediction") {
			return
		}
		for i := range out.M {
			k := vConc(int(got.M[i][0]))
			vAssert(k >= 0 && k < out.Cols && got.M[i][0] == float64(k), "a categorical prediction is an index")
			if k < 0 || k >= out.Cols {
				continue
			}
			for j := range out.M[i] {
				if j < k {
					vAssert(out.M[i][j] < out.M[i][k], "the first index of the row's largest value")
				} else {
					vAssert(out.M[i][j] <= out.M[i][k], "the index of the row's largest value")
				}
			}
		}
	default:
		if !shape(got, out.Rows, out.Cols, "shape of a binary prediction") {
			return
		}
		for i := range out.M {
			for j := range out.M[i] {
				if out.M[i][j] < 0.5 {
					vAssert(got.M[i][j] == 0, "a value below 0.5 is predicted as 0")
				} else {
					vAssert(got.M[i][j] == 1, "a value from 0.5 is predicted as 1")
				}
			}
		}
	}
}

// c19 passes a batch through a model and compares every output.
func c19(kinds, sizes []int, rows int) {
	ps := ratedParts(kinds, sizes)
	s := snapshot(ps)
	m := nn.NewModel()
	training := vPick("training", 2) == 1
	for _, p := range ps {
		if p.kind == kDropout {
			training = false
		}
		vAssert(m.AddLayer(p.l) == nil, "add layer")
	}
	x := mat("x", rows, sizes[0])
	wx := clone(x)
	if vPick("before", 2) == 1 {
		_, err := m.Forward(mat("old", 2, sizes[0]), true)
		vAssert(err == nil, "an earlier training pass")
	}
	out, err := m.Forward(x, training)
	vAssert(err == nil, "forward pass")
	vAssert(len(out) == len(ps)+1, "the input and one output for every layer")
	want := plain(ps, s, wx)
	if len(out) != len(want) {
		return
	}
	for i := range want {
		near(out[i], want[i], "output of every layer")
	}
	same(x, wx, "input unchanged")
	untouched(ps, s, "parameters unchanged")
}

// Every kind of layer after every other, 1..2 rows, sizes 2-2-1 and 1-2-2, fresh
// or after a training pass.
func H_C19_Pairs() {
	k := []int{vPick("first", 6), vPick("second", 6)}
	c19(k, pick("sizes", []int{2, 2, 1}, []int{1, 2, 2}), size("rows", 2))
}

// Four layers of different kinds, any of them first, one or two rows.
func H_C19_Deep() {
	k := vPick("first", 6)
	c19([]int{k, (k + 1) % 6, (k + 2) % 6, (k + 3) % 6}, []int{1, 2, 1, 2, 1}, size("rows", 2))
}

// Larger batches and layers.
func H_C19_Large() {
	k := vPick("kind", 6)
	if vPick("wide", 2) == 1 {
		c19([]int{kLinear, k}, []int{3, 2, 4}, 2)
	} else {
		c19([]int{k, kLinear}, []int{1, 2, 1}, tiered(4, 8))
	}
}

// Predictions of every kind of model, 1..2 rows and 1..3 outputs, from a last
// layer of every kind.
func H_C19_Predict() {
	rows, n := size("rows", 2), size("out", 3)
	k := vPick("kind", 6)
	acc := nn.AccuracyType(vPick("accuracy", 3))
	ps := symParts([]int{kDropout, k}, []int{1, 1, n})
	s := snapshot(ps)
	m := assemble(ps, kMSE, exactSGD(), acc, 0.5)
	x := mat("x", rows, 1)
	wx := clone(x)
	got, err := m.Predict(x)
	vAssert(err == nil, "predict")
	out, err := m.Forward(x, false)
	vAssert(err == nil && len(out) == 3, "forward pass")
	predicted(got, out[2], acc)
	same(x, wx, "input unchanged")
	untouched(ps, s, "parameters unchanged")
	apart(got, x, "prediction shares no storage with the input")
}

// Predict, loss and accuracy in any order, with dropout layers at every place of
// a model: nothing changes, and repeating each gives the same; every accuracy
// and loss kind.
func H_C19_Pure() {
	rows := size("rows", 2)
	kinds := [][]int{{kDropout, kSoftmax}, {kHidden, kDropout}, {kDropout, kDropout}, {kLeaky, kSigmoid}}[vPick("kinds", 4)]
	acc, loss := nn.AccuracyType(vPick("accuracy", 3)), vPick("loss", 4)
	ps := symParts(kinds, []int{1, 2, 2})
	s := snapshot(ps)
	m := assemble(ps, loss, exactMomentum(), acc, 0.5)
	x, y := mat("x", rows, 1), mat("y", rows, 2)
	if loss == kCE || acc == nn.CategoricalAccuracyType {
		y, _ = oneHot(rows, 2)
	}
	wx, wy := clone(x), clone(y)
	p1, err := m.Predict(x)
	vAssert(err == nil, "predict")
	p1 = clone(p1)
	l1, err := m.CalculateLoss(x, y)
	vAssert(err == nil, "loss")
	a1, err := m.CalculateAccuracy(x, y)
	vAssert(err == nil, "accuracy")
	same(x, wx, "inputs unchanged")
	same(y, wy, "labels unchanged")
	untouched(ps, s, "parameters unchanged")
	vAssert(m.ModelSize == 2 && len(m.Layers) == 2 && len(m.Optimizers) == 2 && m.InputSize == 1 && m.OutputSize == 2, "model unchanged")
	a2, err := m.CalculateAccuracy(x, y)
	vAssert(err == nil, "accuracy")
	l2, err := m.CalculateLoss(x, y)
	vAssert(err == nil, "loss")
	p2, err := m.Predict(x)
	vAssert(err == nil, "predict")
	vSame(a1, a2, "the same accuracy again")
	vSame(l1, l2, "the same loss again")
	same(p2, p1, "the same prediction again")
	ref, err := newLoss(loss, 2)
	vAssert(err == nil, "loss")
	want := plain(ps, s, wx)
	l3, err := ref.Forward(want[2], wy)
	vAssert(err == nil, "loss")
	vEq(l1, l3, "the loss is that of the plain outputs")
}

// Inputs and labels of any shape up to 3x4 for a model of 2 inputs and 2
// outputs.
func H_C19_Shapes() {
	kind := vPick("kind", 6)
	ps := symParts([]int{kind, kLinear}, []int{2, 1, 2})
	s := snapshot(ps)
	acc := nn.AccuracyType(vPick("accuracy", 3))
	m := assemble(ps, vPick("loss", 4), exactSGD(), acc, 0.5)
	x := mat("x", size("xr", 3), size("xc", 4))
	wx := clone(x)
	_, err := m.Forward(x, vPick("training", 2) == 1)
	vAssert((err == nil) == (x.Cols == 2), "forward pass refuses exactly the wrong widths")
	_, err = m.Predict(x)
	vAssert((err == nil) == (x.Cols == 2), "prediction refuses exactly the wrong widths")
	y := zeros(x.Rows, 2)
	_, err = m.CalculateLoss(x, y)
	vAssert((err == nil) == (x.Cols == 2), "loss refuses exactly the wrong widths")
	_, err = m.CalculateAccuracy(x, y)
	vAssert((err == nil) == (x.Cols == 2), "accuracy refuses exactly the wrong widths")
	same(x, wx, "input unchanged")
	untouched(ps, s, "parameters unchanged")
}

// Wide models and many samples, 2-40-33-1 with 40 samples or 300-2-2 with 3: given
// parameters, and inputs given but for the first, middle and last; linear, hidden
// and leaky layers in turn.
//v: fold steps=100000000
func H_C19_Bulk() {
	t := pick("shape", []int{40, 2, 40, 33, 1}, []int{3, 300, 2, 2}, []int{300, 1, 2, 1})
	k := vPick("first", 3)
	var ps []part
	for i := 1; i < len(t)-1; i++ {
		kind := []int{kLinear, kHidden, kLeaky}[(k+i)%3]
		q := part{kind: kind}
		if kind == kLeaky {
			q.slope = 0.25
		}
		var err error
		q.l, q.w, q.b, err = newLayer(kind, t[i], t[i+1], q.slope, 0)
		vAssert(err == nil, "layer")
		put(*q.w, given(t[i], t[i+1]))
		put(*q.b, fill(zeros(1, t[i+1]), 0.0625))
		ps = append(ps, q)
	}
	s := snapshot(ps)
	m := assemble(ps, kMSE, exactSGD(), nn.AccuracyType(vPick("accuracy", 2)*2), 0.5)
	x := given(t[0], t[1])
	x.M[t[0]-1][t[1]-1] = vFinite("x")
	wx := clone(x)
	out, err := m.Forward(x, vPick("training", 2) == 1)
	vAssert(err == nil && len(out) == len(ps)+1, "forward pass")
	want := plain(ps, s, wx)
	if len(out) != len(want) {
		return
	}
	for i := range want {
		near(out[i], want[i], "output of every layer")
	}
	got, err := m.Predict(x)
	vAssert(err == nil, "predict")
	predicted(got, out[len(ps)], m.AccuracyType)
	same(x, wx, "input unchanged")
	untouched(ps, s, "parameters unchanged")
}
