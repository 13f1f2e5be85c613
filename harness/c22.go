package main

import nn "github.com/cubeflix/nn"

// dataset is a data set with a copy of what it should be.
type dataset struct{ x, y, wx, wy nn.Matrix }

func newDataset(loss, rows, in, out int) dataset {
	d := dataset{x: mat("x", rows, in), y: mat("y", rows, out)}
	if loss == kCE {
		d.y = zeros(rows, out)
		for i := range d.y.M {
			d.y.M[i][i%out] = 1
		}
	}
	d.wx, d.wy = clone(d.x), clone(d.y)
	return d
}

func (d dataset) kept(what string) {
	same(d.x, d.wx, what+" inputs unchanged")
	same(d.y, d.wy, what+" labels unchanged")
}

// c22 fits and evaluates a model and compares the data after every call.
func c22(kinds, sizes []int, rows, loss, opt int, acc nn.AccuracyType, batch, epochs int) {
	n := len(kinds)
	ps := symParts(kinds, sizes)
	m := assemble(ps, loss, someSettings(opt), acc, 0.5)
	d := newDataset(loss, rows, sizes[0], sizes[n])
	v := newDataset(loss, 1, sizes[0], sizes[n])
	vAssert(m.Fit(d.x, d.y, epochs, batch, v.x, v.y, 1) == nil, "fit")
	d.kept("training")
	v.kept("validation")
	for i := range ps {
		for _, t := range []nn.Matrix{d.x, d.y, v.x, v.y} {
			apart(*ps[i].w, t, "weights share no storage with the data")
			apart(*ps[i].b, t, "biases share no storage with the data")
		}
	}
	_, err := m.CalculateLoss(d.x, d.y)
	vAssert(err == nil, "loss")
	d.kept("evaluation")
	_, err = m.CalculateAccuracy(d.x, d.y)
	vAssert(err == nil, "accuracy")
	d.kept("evaluation")
	p, err := m.Predict(d.x)
	vAssert(err == nil, "predict")
	d.kept("prediction")
	apart(p, d.x, "predictions share no storage with the inputs")
	out, err := m.Forward(d.x, true)
	vAssert(err == nil, "forward pass")
	d.kept("forward pass")
	_, err = m.Backward(out, d.y)
	vAssert(err == nil, "backward pass")
	d.kept("backward pass")
}

// Every kind of layer twice with every loss: 2 samples in batches of 0..1 (2 thorough), one
// epoch of SGD.
func H_C22_Kinds() {
	a, b := vPick("first", 6), vPick("last", 6)
	c22([]int{a, b}, []int{1, 1, 1}, 2, vPick("loss", 4), 0, nn.AccuracyType(1), vPick("batch", tiered(2, 3)), 1)
}

// One layer of every kind with every loss; every optimizer with an accuracy kind.
func H_C22_Single() {
	acc := vPick("accuracy and optimizer", 3)
	c22([]int{vPick("kind", 6)}, []int{1, 1}, 2, vPick("loss", 4), acc, nn.AccuracyType(acc), vPick("batch", 2), 1)
}

// Two units in every layer, 3 samples, two epochs.
func H_C22_Wide() {
	a := []int{kHidden, kLeaky, kSigmoid, kLinear}[vPick("first", 4)]
	b := []int{kLinear, kSigmoid}[vPick("last", 2)]
	c22([]int{a, b}, []int{2, 2, 2}, 3, []int{kMSE, kBCE}[vPick("loss", 2)], 0, nn.AccuracyType(2), vPick("batch", 3), 2)
}

// Changing the data after fitting does not change the model: the same parameters
// and predictions as of a model whose data stayed.
func H_C22_Afterwards() {
	kinds := [][]int{{kLinear, kHidden}, {kHidden, kLinear}, {kSigmoid, kSoftmax}, {kDropout, kLeaky}}[vPick("kinds", 4)]
	loss, opt := []int{kMSE, kCE}[vPick("loss", 2)], vPick("optimizer", 3)
	sizes := []int{1, 1, 2}
	ps := symParts(kinds, sizes)
	qs := copies(ps)
	m := assemble(ps, loss, someSettings(opt), nn.RegressionAccuracyType, 0.5)
	ref := assemble(qs, loss, someSettings(opt), nn.RegressionAccuracyType, 0.5)
	d := newDataset(loss, 1, 1, 2)
	none := nn.Matrix{}
	batch := vPick("batch", 2)
	first := vDrawCount()
	vAssert(m.Fit(d.x, d.y, 1, batch, none, none, 0) == nil, "fit")
	second := vDrawCount()
	vDrawSeek(first)
	vAssert(ref.Fit(d.wx, d.wy, 1, batch, none, none, 0) == nil, "fit")
	fill(d.x, vFinite("other x"))
	fill(d.y, vFinite("other y"))
	untouched(ps, snapshot(qs), "parameters do not follow the data")
	e := newDataset(loss, 1, 1, 2)
	p, err := m.Predict(e.x)
	vAssert(err == nil, "predict")
	q, err := ref.Predict(e.wx)
	vAssert(err == nil, "predict")
	near(p, q, "predictions do not follow the data")
	vDrawSeek(second)
	vAssert(m.Fit(e.x, e.y, 1, batch, none, none, 0) == nil, "fit again")
	vDrawSeek(second)
	vAssert(ref.Fit(e.wx, e.wy, 1, batch, none, none, 0) == nil, "fit again")
	for i := range ps {
		near(*ps[i].w, *qs[i].w, "later training does not follow the data")
		near(*ps[i].b, *qs[i].b, "later training does not follow the data")
	}
}

// Losses, their gradients, accuracies and label conversions by themselves, of up
// to 2x3 numbers of any kind, in [0,1] for the entropies.
func H_C22_Functions() {
	r, c := size("rows", 2), size("cols", 3)
	kind := vPick("function", 8)
	var p, y nn.Matrix
	if kind < 4 {
		p, y = mat("p", r, c), mat("y", r, c)
		if kind == kCE {
			y, _ = oneHot(r, c)
		}
		if kind >= kCE {
			for i := range p.M {
				for j := range p.M[i] {
					vGiven(p.M[i][j] >= 0 && p.M[i][j] <= 1)
				}
			}
		}
	} else {
		p, y = matAny("p", r, c), matAny("y", r, c)
	}
	wp, wy := clone(p), clone(y)
	var out nn.Matrix
	switch kind {
	case kMSE, kMAE, kCE, kBCE:
		l, err := newLoss(kind, c)
		vAssert(err == nil, "loss")
		_, err = l.Forward(p, y)
		vAssert(err == nil, "forward pass")
		same(p, wp, "predictions unchanged")
		same(y, wy, "labels unchanged")
		out, err = l.Backward(p, y)
		vAssert(err == nil, "backward pass")
		apart(out, p, "the gradient shares no storage with the predictions")
		apart(out, y, "the gradient shares no storage with the labels")
	case 4:
		nn.RegressionAccuracy(p, y, 0.5)
	case 5:
		y, _ = oneHot(r, c)
		wy = clone(y)
		nn.CategoricalAccuracy(p, y)
	case 6:
		nn.BinaryCategoricalAccuracy(p, y)
	case 7:
		out = nn.OutputBinaryValues(p)
		apart(out, p, "thresholded values share no storage with the values")
		out = nn.RowMax(p)
		apart(out, p, "row maxima share no storage with the values")
	}
	same(p, wp, "predictions unchanged")
	same(y, wy, "labels unchanged")
}

// Many samples and units: 65 samples of 3 numbers, 2 samples of 300, all given;
// batches of 32 or all; every loss, SGD or Adam.
func H_C22_Bulk() {
	s := pick("shape", []int{65, 3, 2}, []int{2, 300, 2}, []int{40, 2, 33})
	loss, opt := vPick("loss", 4), vPick("optimizer", 3)
	ps := symParts([]int{kLinear}, []int{1, 1})
	l, w, b, err := newLayer([]int{kSigmoid, kLinear}[vPick("kind", 2)], s[1], s[2], 0, 0)
	vAssert(err == nil, "layer")
	put(*w, given(s[1], s[2]))
	ps[0].l, ps[0].w, ps[0].b = l, w, b
	m := assemble(ps, loss, someSettings(opt), nn.RegressionAccuracyType, 0.5)
	d := dataset{x: given(s[0], s[1]), y: given(s[0], s[2])}
	for i := range d.y.M {
		for j := range d.y.M[i] {
			d.y.M[i][j] = float64((i + j) % 2)
		}
	}
	d.wx, d.wy = clone(d.x), clone(d.y)
	vAssert(m.Fit(d.x, d.y, 1, []int{32, 0}[vPick("batch", 2)], d.x, d.y, 1) == nil, "fit")
	d.kept("training")
	_, err = m.Predict(d.x)
	vAssert(err == nil, "predict")
	d.kept("prediction")
	kept := clone(*w)
	fill(d.x, 7)
	fill(d.y, 7)
	same(*w, kept, "weights share no storage with the data")
}
