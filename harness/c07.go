package main

func c07(kind int, r, in, out int) {
	slope := float64(0)
	if kind == kLeaky {
		slope = vFinite("slope")
		vAssume(slope >= 0)
	}
	rate := 0.5
	if kind == kDropout {
		rate = []float64{0.5, 0, 1}[vPick("rate", 3)]
	}
	l, w, b := symLayer(kind, in, out, slope, rate)
	x := mat("x", r, in)
	wx, ww, wb := clone(x), clone(*w), clone(*b)
	y, err := infer(l, x)
	vAssert(err == nil, "a batch of the right width is accepted")
	near(y, activate(kind, affine(wx, ww, wb), slope), "output is the activation of xw + b")
	same(x, wx, "batch unchanged")
	same(*w, ww, "weights unchanged")
	same(*b, wb, "biases unchanged")
	apart(y, x, "output has its own storage")
}

// Hidden layers, batches of 1..2 rows, 1..2 inputs and outputs (3 each thorough).
func H_C07_Hidden() {
	k := tiered(2, 3)
	c07(kHidden, size("rows", k), size("in", k), size("out", k))
}

// Linear layers, 1..2 (3) rows, inputs and outputs.
func H_C07_Linear() {
	k := tiered(2, 3)
	c07(kLinear, size("rows", k), size("in", k), size("out", k))
}

// Sigmoid layers, 1..2 (3) rows, inputs and outputs.
func H_C07_Sigmoid() {
	k := tiered(2, 3)
	c07(kSigmoid, size("rows", k), size("in", k), size("out", k))
}

// Leaky layers of any slope from 0, 1..2 (3) rows, inputs and outputs.
func H_C07_Leaky() {
	k := tiered(2, 3)
	c07(kLeaky, size("rows", k), size("in", k), size("out", k))
}

// Softmax layers, 1..2 rows and inputs, 1..3 outputs.
func H_C07_Softmax() {
	k := tiered(2, 2)
	c07(kSoftmax, size("rows", k), size("in", k), size("out", tiered(3, 4)))
}

// Dropout layers with a rate of 0, 1/2 or 1 outside training, 1..2 (3) rows, inputs and outputs.
func H_C07_Dropout() {
	k := tiered(2, 3)
	c07(kDropout, size("rows", k), size("in", k), size("out", k))
}

// Larger layers with many rows, inputs or outputs: every kind but softmax.
func H_C07_Large() {
	kind := []int{kHidden, kLinear, kSigmoid, kLeaky, kDropout}[vPick("kind", 5)]
	s := pick("shape", []int{5, 2, 1}, []int{1, 7, 2}, []int{1, 1, 7}, []int{3, 3, 3}, []int{9, 1, 1})
	c07(kind, s[0], s[1], s[2])
}

// Every kind: batches of every width up to 4 for layers of 1..3 inputs.
func H_C07_Width() {
	kind, in := vPick("kind", 6), size("in", 3)
	l, w, b := symLayer(kind, in, size("out", 2), 0.25, 0.5)
	x := mat("x", size("rows", 2), size("width", 4))
	wx, ww, wb := clone(x), clone(*w), clone(*b)
	var err error
	if vPick("training", 2) == 1 {
		_, err = l.Forward(x)
	} else {
		_, err = infer(l, x)
	}
	vAssert((err == nil) == (x.Cols == in), "refuses exactly the wrong widths")
	same(x, wx, "batch unchanged")
	same(*w, ww, "weights unchanged")
	same(*b, wb, "biases unchanged")
}

// Every kind: an earlier pass over the same batch, in the same storage, before the
// parameters, the batch or both got new values in place.
func H_C07_Again() {
	kind := vPick("kind", 6)
	s := pick("shape", []int{1, 1, 1}, []int{2, 1, 2}, []int{1, 2, 2})
	slope := float64(0)
	if kind == kLeaky {
		slope = 0.25
	}
	l, w, b := symLayer(kind, s[1], s[2], slope, 0.5)
	x := mat("x", s[0], s[1])
	first, err := infer(l, x)
	vAssert(err == nil, "an earlier pass")
	kept := clone(first)
	what := vPick("what", 4)
	if what == 0 || what == 3 {
		renew(*w, "w2")
	}
	if what == 1 || what == 3 {
		renew(*b, "b2")
	}
	if what >= 2 {
		renew(x, "x2")
	}
	wx, ww, wb := clone(x), clone(*w), clone(*b)
	y, err := infer(l, x)
	vAssert(err == nil, "a batch of the right width is accepted")
	near(y, activate(kind, affine(wx, ww, wb), slope), "output is the activation of xw + b")
	same(first, kept, "an earlier output stays as it was")
}

// Layers of every kind with a batch, inputs or outputs of 40 to 1100, all of given
// numbers but for the first, middle and last of the batch (softmax: all).
//v: fold
func H_C07_Bulk() {
	kind := vPick("kind", 6)
	r, in, out := bulkLayers()
	slope := float64(0)
	if kind == kLeaky {
		slope = 0.25
	}
	l, w, b, err := newLayer(kind, in, out, slope, 0.5)
	vAssert(err == nil, "a layer of positive size is created")
	put(*w, given(in, out))
	put(*b, given(1, out))
	x := given(r, in)
	if kind != kSoftmax {
		x = bulk("x", r, in)
	}
	wx, ww, wb := clone(x), clone(*w), clone(*b)
	y, err := infer(l, x)
	vAssert(err == nil, "a batch of the right width is accepted")
	near(y, activate(kind, affine(wx, ww, wb), slope), "output is the activation of xw + b")
	same(x, wx, "batch unchanged")
	same(*w, ww, "weights unchanged")
	same(*b, wb, "biases unchanged")
}
