package main

import nn "github.com/cubeflix/nn"

// dropRate picks a rate: 0, 1, or anything in between.
func dropRate() float64 {
	switch vPick("rate kind", 3) {
	case 0:
		return 0
	case 1:
		return 1
	}
	r := vFinite("rate")
	vAssume(r > 0 && r < 1)
	return r
}

// explained tells whether the pattern of dropped outputs is what independent
// draws, one per output in the given order, decide: dropped exactly when the
// draw is below the rate, or exactly when it is not below 1-rate. Outputs that
// are zero anyway do not count.
func explained(dropped, counts []bool, first int, rate float64, order []int, low bool) bool {
	ok := true
	for k, d := range dropped {
		if !counts[k] {
			continue
		}
		u := vDraw(first + order[k])
		if low {
			ok = ok && d == (u < rate)
		} else {
			ok = ok && d == !(u < 1-rate)
		}
	}
	return ok
}

// masked checks a training output and returns the scale every output got.
func masked(y, z nn.Matrix, first int, rate float64) nn.Matrix {
	s := zeros(y.Rows, y.Cols)
	n := y.Rows * y.Cols
	dropped, counts := make([]bool, n), make([]bool, n)
	rowMajor, colMajor := make([]int, n), make([]int, n)
	for i := range y.M {
		for j := range y.M[i] {
			k := i*y.Cols + j
			rowMajor[k], colMajor[k] = k, j*y.Rows+i
			if z.M[i][j] <= 0 {
				vEq(y.M[i][j], 0, "a negative pre-activation gives zero")
				continue
			}
			counts[k] = true
			if y.M[i][j] == 0 {
				dropped[k] = true
				vAssert(rate > 0, "nothing is dropped at rate 0")
			} else {
				vAssert(rate < 1, "everything is dropped at rate 1")
				if rate < 1 {
					s.M[i][j] = 1 / (1 - rate)
					vEq(y.M[i][j], z.M[i][j]/(1-rate), "survivors are scaled by 1/(1-rate)")
				}
			}
		}
	}
	if rate > 0 && rate < 1 {
		uniform := vDrawCount()-first >= n
		vAssert(uniform, "every output has its own draw")
		for k := 0; uniform && k < n; k++ {
			uniform = vDrawKind(first+k) == "u"
		}
		if vDrawCount()-first >= n && !uniform {
			vUndecided("dropout decided by other draws than uniform numbers in [0,1)")
		}
		if uniform {
			vAssert(explained(dropped, counts, first, rate, rowMajor, true) || explained(dropped, counts, first, rate, rowMajor, false) ||
				explained(dropped, counts, first, rate, colMajor, true) || explained(dropped, counts, first, rate, colMajor, false),
				"each output is dropped by its own draw with the probability of the rate")
		}
	}
	return s
}

// Forward passes as in training; every rate from 0 to 1, 1..2 rows and outputs,
// every outcome of the draws, pre-activations at least 1/1024 away from 0.
//v: mode=R
func H_C17_Training() {
	r, in, out := size("rows", 2), 1, size("out", 2)
	rate := dropRate()
	l, w, b := symLayer(kDropout, in, out, 0, rate)
	x, d := mat("x", r, in), mat("d", r, out)
	wx, ww, wb, wd := clone(x), clone(*w), clone(*b), clone(d)
	z := affine(x, ww, wb)
	offKink(kDropout, z)
	switch vPick("before", 3) { // an earlier pass of either kind
	case 1:
		_, err := l.Forward(mat("old", 1, in))
		vAssert(err == nil, "earlier forward pass")
	case 2:
		_, err := infer(l, mat("old", r, in))
		vAssert(err == nil, "earlier inference pass")
	}
	first := vDrawCount()
	y, err := l.Forward(x)
	vAssert(err == nil, "forward pass")
	same(x, wx, "batch unchanged")
	same(*w, ww, "weights unchanged")
	same(*b, wb, "biases unchanged")
	if !shape(y, r, out, "shape of the output") {
		return
	}
	s := masked(y, z, first, rate)
	dw, db, dx, err := l.Backward(x, d)
	vAssert(err == nil, "backward pass")
	gradients(func() float64 {
		f := float64(0)
		a := activate(kDropout, affine(wx, ww, wb), 0)
		for i := range a.M {
			for j := range a.M[i] {
				f += wd.M[i][j] * a.M[i][j] * s.M[i][j]
			}
		}
		return f
	}, ww, wb, wx, dw, db, dx)
}

// More outputs: 1x4, 4x1, 2x3 outputs that are all active.
//v: mode=R
func H_C17_Wide() {
	s := pick("shape", []int{1, 4}, []int{4, 1}, []int{2, 3})
	rate := vFinite("rate")
	vAssume(rate > 0 && rate < 1)
	l, w, b := symLayer(kDropout, 1, s[1], 0, rate)
	x := mat("x", s[0], 1)
	z := affine(x, *w, *b)
	for i := range z.M {
		for j := range z.M[i] {
			vAssume(z.M[i][j] >= 1.0/1024)
		}
	}
	first := vDrawCount()
	y, err := l.Forward(x)
	vAssert(err == nil, "forward pass")
	if shape(y, s[0], s[1], "shape of the output") {
		masked(y, z, first, rate)
	}
}

// Two training passes in a row use draws of their own.
//v: mode=R
func H_C17_Twice() {
	rate := vFinite("rate")
	vAssume(rate > 0 && rate < 1)
	l, w, b := symLayer(kDropout, 1, 2, 0, rate)
	x := mat("x", 1, 1)
	z := affine(x, *w, *b)
	for j := range z.M[0] {
		vAssume(z.M[0][j] >= 1.0/1024)
	}
	from := vSeeds()
	for k := 0; k < 2; k++ {
		first := vDrawCount()
		y, err := l.Forward(x)
		vAssert(err == nil, "forward pass")
		if shape(y, 1, 2, "shape of the output") {
			masked(y, z, first, rate)
		}
	}
	freshSeeds(from, "no pass repeats the random numbers of another")
}

// Inference: nothing dropped or scaled at any rate, after a training pass or not,
// by the layer or by a model; the backward pass is that of the plain ReLU layer.
//v: mode=R
func H_C17_Inference() {
	r, in, out := size("rows", 2), 1, size("out", 2)
	rate := dropRate()
	l, w, b := symLayer(kDropout, in, out, 0, rate)
	x, d := mat("x", r, in), mat("d", r, out)
	wx, ww, wb, wd := clone(x), clone(*w), clone(*b), clone(d)
	offKink(kDropout, affine(x, ww, wb))
	if vPick("before", 2) == 1 {
		_, err := l.Forward(x)
		vAssert(err == nil, "training pass")
	}
	var y nn.Matrix
	if vPick("by model", 2) == 1 {
		m := nn.NewModel()
		vAssert(m.AddLayer(l) == nil, "add layer")
		ys, err := m.Forward(x, false)
		vAssert(err == nil && len(ys) == 2, "forward pass")
		y = ys[1]
	} else {
		var err error
		y, err = infer(l, x)
		vAssert(err == nil, "forward pass")
	}
	near(y, activate(kDropout, affine(wx, ww, wb), 0), "output is the plain ReLU output")
	dw, db, dx, err := l.Backward(x, d)
	vAssert(err == nil, "backward pass")
	gradients(func() float64 {
		return dotted(wd, activate(kDropout, affine(wx, ww, wb), 0))
	}, ww, wb, wx, dw, db, dx)
}

// Many outputs: 1x12, 12x1, 3x5, 1x33, 33x1, 17x4, 1x70 and 70x1 pre-activations of 1
// to 3, a rate of 1/4 (the smaller ones also 1/2 and 3/4), every outcome of the draws.
//v: mode=R
func H_C17_Many() {
	s := pick("shape", []int{1, 12}, []int{12, 1}, []int{3, 5}, []int{1, 33}, []int{33, 1}, []int{17, 4}, []int{1, 70}, []int{70, 1})
	rate := 0.25
	if s[0]*s[1] < 20 {
		rate = []float64{0.25, 0.5, 0.75}[vPick("rate", 3)]
	}
	l, w, b, err := newLayer(kDropout, 1, s[1], 0, rate)
	vAssert(err == nil, "layer")
	put(*w, zeros(1, s[1]))
	for j := range b.M[0] {
		b.M[0][j] = float64(1 + j%3)
	}
	x := zeros(s[0], 1)
	z := affine(x, *w, *b)
	first := vDrawCount()
	y, err := l.Forward(x)
	vAssert(err == nil, "forward pass")
	if !shape(y, s[0], s[1], "shape of the output") {
		return
	}
	m := masked(y, z, first, rate)
	d := fill(zeros(s[0], s[1]), 1)
	dw, db, dx, err := l.Backward(x, d)
	vAssert(err == nil, "backward pass")
	shape(dw, 1, s[1], "shape of the weight gradient")
	shape(dx, s[0], 1, "shape of the input gradient")
	if shape(db, 1, s[1], "shape of the bias gradient") && s[0] < 4 {
		for j := range db.M[0] {
			t := float64(0)
			for i := range m.M {
				t += m.M[i][j]
			}
			vEq(db.M[0][j], t, "bias gradient passes by the survivors only, at their scale")
		}
	}
}
