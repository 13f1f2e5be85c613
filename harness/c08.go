package main


func c08(kind, r, in, out int) {
	slope := float64(0)
	if kind == kLeaky {
		slope = vFinite("slope")
		vAssume(slope >= 0)
	}
	rate := 0.5
	if kind == kDropout {
		rate = []float64{0.5, 0, 1}[vPick("rate", 3)]
	}
	l, w, b := symLayer(kind, in, out, slope, rate)
	x, d := mat("x", r, in), mat("d", r, out)
	wx, ww, wb, wd := clone(x), clone(*w), clone(*b), clone(d)
	offKink(kind, affine(x, ww, wb))
	// what happened before, on this layer or on another one
	before := vPick("before", 3)
	if before == 1 {
		// of other parameters, forward and backward
		renew(*w, "w0")
		renew(*b, "b0")
		old := mat("old", 2, in)
		_, err := infer(l, old)
		vAssert(err == nil, "an earlier forward pass")
		_, _, _, err = l.Backward(old, mat("d0", 2, out))
		vAssert(err == nil, "an earlier backward pass")
		put(*w, ww)
		put(*b, wb)
	}
	_, err := infer(l, x)
	vAssert(err == nil, "forward pass")
	if before == 2 {
		o, _, _ := symLayer(kind, in, out, slope, 0.5)
		_, err := infer(o, mat("old", r, in))
		vAssert(err == nil, "a forward pass of another layer")
	}
	dw, db, dx, err := l.Backward(x, d)
	vAssert(err == nil, "backward pass")
	same(x, wx, "batch unchanged")
	same(*w, ww, "weights unchanged")
	same(*b, wb, "biases unchanged")
	gradients(func() float64 {
		return dotted(wd, activate(kind, affine(wx, ww, wb), slope))
	}, ww, wb, wx, dw, db, dx)
}

func c08kind(kind int) {
	k := tiered(2, 3)
	c08(kind, size("rows", k), size("in", k), size("out", k))
}

// Hidden layers, 1..2 rows, inputs and outputs (3 thorough); pre-activations at
// least 1/1024 away from 0; after an earlier pass of this or another layer.
//v: mode=R
func H_C08_Hidden() { c08kind(kHidden) }

// Linear layers, the same bounds.
//v: mode=R
func H_C08_Linear() { c08kind(kLinear) }

// Sigmoid layers, the same bounds.
//v: mode=R
func H_C08_Sigmoid() { c08kind(kSigmoid) }

// Leaky layers of any slope from 0, the same bounds.
//v: mode=R
func H_C08_Leaky() { c08kind(kLeaky) }

// Dropout layers outside training, the same bounds.
//v: mode=R
func H_C08_Dropout() { c08kind(kDropout) }

// Softmax layers, 1..2 rows and inputs, 1..3 outputs.
//v: mode=R
func H_C08_Softmax() {
	c08(kSoftmax, size("rows", 2), size("in", 2), size("out", 3))
}

// Larger layers of every kind but softmax.
//v: mode=R
func H_C08_Large() {
	kind := []int{kHidden, kLinear, kSigmoid, kLeaky, kDropout}[vPick("kind", 5)]
	s := pick("shape", []int{4, 1, 1}, []int{1, 4, 1}, []int{1, 1, 4}, []int{1, 3, 3}, []int{3, 2, 1})
	c08(kind, s[0], s[1], s[2])
}

// 3 rows, 2 inputs and 3 outputs, for every kind but softmax.
//v: mode=R tier=thorough
func H_C08_Wide() {
	c08([]int{kHidden, kLinear, kSigmoid, kLeaky, kDropout}[vPick("kind", 5)], 3, 2, 3)
}

// Every kind: any shapes of input and gradient up to 3x3 after a forward pass
// of 1..2 rows of a layer with 2 inputs and 1..2 outputs.
func H_C08_Shapes() {
	kind, r, out := vPick("kind", 6), size("rows", 2), size("out", 2)
	l, w, b := symLayer(kind, 2, out, 0.25, 0.5)
	_, err := infer(l, mat("x", r, 2))
	vAssert(err == nil, "forward pass")
	ww, wb := clone(*w), clone(*b)
	x, d := mat("x2", size("xr", 3), 1+vPick("xc", 3)), mat("d", size("dr", 3), size("dc", 3))
	wx := clone(x)
	_, _, _, err = l.Backward(x, d)
	if x.Cols != 2 || d.Cols != out || x.Rows != d.Rows {
		vAssert(err != nil, "refuses what does not fit")
		vReach("refused")
	} else if x.Rows == r {
		vAssert(err == nil, "accepts what fits")
		vReach("accepted")
	}
	same(x, wx, "input unchanged")
	same(*w, ww, "weights unchanged")
	same(*b, wb, "biases unchanged")
}

// Near the kink of hidden, leaky and dropout layers: any pre-activation except 0
// itself; 1..2 rows, inputs and outputs.
//v: mode=R
func H_C08_Kink() {
	kind := []int{kHidden, kLeaky, kDropout}[vPick("kind", 3)]
	r, in, out := size("rows", 2), size("in", 2), size("out", 2)
	slope := float64(0)
	if kind == kLeaky {
		slope = vFinite("slope")
		vAssume(slope >= 0)
	}
	l, w, b := symLayer(kind, in, out, slope, 0.5)
	x, d := mat("x", r, in), mat("d", r, out)
	z := affine(x, *w, *b)
	e := zeros(r, out)
	for i := range z.M {
		for j := range z.M[i] {
			if vPick("active", 2) == 1 {
				vAssume(z.M[i][j] > 0)
				e.M[i][j] = d.M[i][j]
			} else {
				vAssume(z.M[i][j] < 0)
				e.M[i][j] = d.M[i][j] * slope
			}
		}
	}
	_, err := infer(l, x)
	vAssert(err == nil, "forward pass")
	dw, db, dx, err := l.Backward(x, d)
	vAssert(err == nil, "backward pass")
	weightGradients(x, *w, e, dw, db, dx)
}

// Softmax layers of 5, 9 or 17 outputs and batches of up to 9 rows: fixed parameters
// and batches (probabilities down to 1e-7), every gradient of the output with
// elements from -1 to 1; equal up to 2^-30.
//v: mode=R fold
func H_C08_SoftmaxLong() {
	s := pick("shape", []int{1, 1, 9}, []int{2, 2, 5}, []int{9, 1, 2}, []int{5, 2, 3}, []int{1, 1, 17}, []int{2, 1, 2})
	r, in, out := s[0], s[1], s[2]
	l, w, b, err := newLayer(kSoftmax, in, out, 0, 0)
	vAssert(err == nil, "a layer of positive size is created")
	spread := []float64{0.25, 2, 16}[vPick("spread", 3)]
	for j := range b.M[0] {
		for i := range w.M {
			w.M[i][j] = 0.5 * float64(i+1) * float64(j%3-1)
		}
		b.M[0][j] = spread * float64(j%2)
	}
	x := zeros(r, in)
	for i := range x.M {
		for j := range x.M[i] {
			x.M[i][j] = 0.25 * float64((i+2*j)%4)
		}
	}
	d := unit("d", r, out)
	wd, ww := clone(d), clone(*w)
	p := activate(kSoftmax, affine(x, *w, *b), 0)
	_, err = l.Forward(x)
	vAssert(err == nil, "forward pass")
	dw, db, dx, err := l.Backward(x, d)
	vAssert(err == nil, "backward pass")
	e := zeros(r, out)
	for i := range e.M {
		t := float64(0)
		for j := range e.M[i] {
			t += wd.M[i][j] * p.M[i][j]
		}
		for j := range e.M[i] {
			e.M[i][j] = p.M[i][j] * (wd.M[i][j] - t)
		}
	}
	weightGradients(x, ww, e, dw, db, dx)
}

// Layers of every kind with a batch, inputs or outputs of 40 to 1100: given
// parameters and batches, and gradients of the output given but for the first,
// middle and last, which are any (softmax: up to 40); equal up to 2^-30.
//v: mode=R fold steps=100000000
func H_C08_Bulk() {
	kind := vPick("kind", 6)
	r, in, out := bulkLayers()
	if kind == kSoftmax && (r*in*out > 2000 || out > 500) {
		return
	}
	slope := float64(0)
	if kind == kLeaky {
		slope = 0.25
	}
	l, w, b, err := newLayer(kind, in, out, slope, 0)
	vAssert(err == nil, "a layer of positive size is created")
	put(*w, given(in, out))
	put(*b, fill(zeros(1, out), 0.03125))
	x, d := given(r, in), bulk("d", r, out)
	if kind == kSoftmax {
		for i := range d.M {
			for j := range d.M[i] {
				vGiven(d.M[i][j] >= -1 && d.M[i][j] <= 1)
			}
		}
	}
	wx, wd, ww := clone(x), clone(d), clone(*w)
	z := affine(x, *w, *b)
	p := activate(kind, z, slope)
	e := clone(d)
	for i := range e.M {
		t := float64(0)
		for j := range e.M[i] {
			if kind == kSoftmax {
				t += wd.M[i][j] * p.M[i][j]
			}
		}
		for j := range e.M[i] {
			switch kind {
			case kHidden, kDropout:
				if z.M[i][j] <= 0 {
					e.M[i][j] = 0
				}
			case kLeaky:
				if z.M[i][j] <= 0 {
					e.M[i][j] *= slope
				}
			case kSigmoid:
				e.M[i][j] *= p.M[i][j] * (1 - p.M[i][j])
			case kSoftmax:
				e.M[i][j] = p.M[i][j] * (wd.M[i][j] - t)
			}
		}
	}
	_, err = infer(l, x)
	vAssert(err == nil, "forward pass")
	dw, db, dx, err := l.Backward(x, d)
	vAssert(err == nil, "backward pass")
	weightGradients(wx, ww, e, dw, db, dx)
	same(x, wx, "batch unchanged")
	same(*w, ww, "weights unchanged")
}
