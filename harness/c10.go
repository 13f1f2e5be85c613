package main

import nn "github.com/cubeflix/nn"

func c10(r, in, out int, unfused bool) {
	l, w, b := symLayer(kSoftmax, in, out, 0, 0)
	x := mat("x", r, in)
	y, at := oneHot(r, out)
	wx, ww, wb, wy := clone(x), clone(*w), clone(*b), clone(y)
	s := l.(*nn.SoftmaxLayer)
	p, err := s.Forward(x)
	vAssert(err == nil, "forward pass")
	wp := clone(p)
	dw, db, dx, err := s.BackwardCrossEntropy(x, y, p)
	vAssert(err == nil, "combined backward pass")
	same(x, wx, "batch unchanged")
	same(y, wy, "labels unchanged")
	same(p, wp, "outputs unchanged")
	same(*w, ww, "weights unchanged")
	same(*b, wb, "biases unchanged")
	gradients(func() float64 {
		return crossEntropy(activate(kSoftmax, affine(wx, ww, wb), 0), at)
	}, ww, wb, wx, dw, db, dx)
	// the same by way of the loss, while the backward pass of the layer is still
	// that of the same forward pass
	if out > 1 && unfused {
		inside(p)
		loss, err := nn.NewCrossEntropyLoss(out)
		vAssert(err == nil, "loss")
		d, err := loss.Backward(p, y)
		vAssert(err == nil, "backward pass of the loss")
		uw, ub, ux, err := s.Backward(x, d)
		vAssert(err == nil, "backward pass of the layer")
		near(dw, uw, "weight gradient as by the unfused way")
		near(db, ub, "bias gradient as by the unfused way")
		near(dx, ux, "input gradient as by the unfused way")
	}
}

// 1..2 rows, 1..2 inputs, 1..3 outputs (3, 2, 4 thorough), every one-hot label.
//v: mode=R
func H_C10_Fused() { c10(size("rows", tiered(2, 3)), size("in", 2), size("out", tiered(3, 4)), true) }

// Batches of 4 and 5 rows, 5 outputs (the unfused way only in the thorough tier).
//v: mode=R
func H_C10_Large() {
	s := pick("shape", []int{4, 1, 2}, []int{5, 1, 2}, []int{1, 3, 5})
	c10(s[0], s[1], s[2], vTier() > 0)
}

// Any shapes of inputs, labels and outputs up to 3x3, after a forward pass of
// 1..2 rows of a layer of 2 inputs and 2 outputs.
func H_C10_Shapes() {
	l, w, b := symLayer(kSoftmax, 2, 2, 0, 0)
	s := l.(*nn.SoftmaxLayer)
	r := size("rows", 2)
	_, err := s.Forward(mat("x", r, 2))
	vAssert(err == nil, "forward pass")
	x := mat("x2", size("xr", 3), size("xc", 3))
	y := mat("y", size("yr", 3), size("yc", 3))
	p := mat("p", size("pr", 3), size("pc", 3))
	wx, wy, wp, ww, wb := clone(x), clone(y), clone(p), clone(*w), clone(*b)
	_, _, _, err = s.BackwardCrossEntropy(x, y, p)
	if x.Cols != 2 || y.Cols != 2 || p.Cols != 2 || x.Rows != y.Rows || x.Rows != p.Rows {
		vAssert(err != nil, "refuses what does not fit")
		vReach("refused")
	} else if x.Rows == r {
		vAssert(err == nil, "accepts what fits")
		vReach("accepted")
	}
	same(x, wx, "inputs unchanged")
	same(y, wy, "labels unchanged")
	same(p, wp, "outputs unchanged")
	same(*w, ww, "weights unchanged")
	same(*b, wb, "biases unchanged")
}

// Probabilities of the right class from 1-1e-7 down to 1e-7, 2 to 9 classes, 1 to 9
// rows: fixed biases, every one-hot label of the first and the last row, any
// inputs from -1 to 1 (with weights of zero, so that they do not matter for the
// outputs); equal up to 2^-30.
//v: mode=R fold
func H_C10_Sure() {
	s := pick("shape", []int{1, 2}, []int{2, 2}, []int{2, 3}, []int{9, 2}, []int{1, 9})
	r, out := s[0], s[1]
	l, w, b, err := newLayer(kSoftmax, 1, out, 0, 0)
	vAssert(err == nil, "a layer of positive size is created")
	b.M[0][vPick("class", 2)] = []float64{6, 12, 15.5}[vPick("bias", 3)]
	x := unit("x", r, 1)
	wx := clone(x)
	y := zeros(r, out)
	for i := range y.M {
		k := i % out
		if i == 0 || i == r-1 {
			k = vPick("label", 2)
		}
		y.M[i][k] = 1
	}
	layer := l.(*nn.SoftmaxLayer)
	p, err := layer.Forward(x)
	vAssert(err == nil, "forward pass")
	z := zeros(r, out)
	for i := range z.M {
		copy(z.M[i], b.M[0])
	}
	e := activate(kSoftmax, z, 0)
	for i := range e.M {
		for j := range e.M[i] {
			e.M[i][j] = (e.M[i][j] - y.M[i][j]) / float64(r)
		}
	}
	wy := clone(y)
	dw, db, dx, err := layer.BackwardCrossEntropy(x, y, p)
	vAssert(err == nil, "combined backward pass")
	weightGradients(wx, *w, e, dw, db, dx)
	same(y, wy, "labels unchanged")
}
