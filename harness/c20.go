package main

import nn "github.com/cubeflix/nn"

// labelsFor makes labels for predictions of the shape of p, and keeps p away from
// kinks and clipped ends of the loss.
func labelsFor(kind int, p nn.Matrix) nn.Matrix {
	if kind == kCE {
		y, _ := oneHot(p.Rows, p.Cols)
		inside(p)
		return y
	}
	y := mat("y", p.Rows, p.Cols)
	for i := range y.M {
		for j := range y.M[i] {
			switch kind {
			case kBCE:
				vAssume(y.M[i][j] >= 0 && y.M[i][j] <= 1)
			case kMAE:
				if vPick("above", 2) == 1 {
					vAssume(p.M[i][j]-y.M[i][j] >= 1.0/1024)
				} else {
					vAssume(p.M[i][j]-y.M[i][j] <= -1.0/1024)
				}
			}
		}
	}
	if kind == kBCE {
		inside(p)
	}
	return y
}

// c20 passes a batch forward and backward through a model.
func c20(kinds, sizes []int, rows, loss int, training, before bool) {
	n := len(kinds)
	ps := symParts(kinds, sizes)
	s := snapshot(ps)
	m := assemble(ps, loss, exactSGD(), nn.RegressionAccuracyType, 0.5)
	x := mat("x", rows, sizes[0])
	wx := clone(x)
	if before {
		old := mat("old", 1, sizes[0])
		out, err := m.Forward(old, false)
		vAssert(err == nil && len(out) == n+1, "an earlier forward pass")
	}
	// layer by layer, to stay away from kinks
	first := vDrawCount()
	cur := clone(x)
	for i, q := range copies(ps) {
		offKink(kinds[i], affine(cur, s[i].w, s[i].b))
		var err error
		if training {
			cur, err = q.l.Forward(cur)
		} else {
			cur, err = infer(q.l, cur)
		}
		vAssert(err == nil, "forward pass of a layer")
	}
	y := labelsFor(loss, cur)
	wy := clone(y)
	vDrawSeek(first)
	out, err := m.Forward(x, training)
	vAssert(err == nil && len(out) == n+1, "forward pass")
	kept := make([]nn.Matrix, len(out))
	for i := range out {
		kept[i] = clone(out[i])
	}
	g, err := m.Backward(out, y)
	vAssert(err == nil, "backward pass")
	vAssert(len(g) == n, "gradients of every layer")
	same(x, wx, "inputs unchanged")
	same(y, wy, "labels unchanged")
	untouched(ps, s, "parameters unchanged")
	for i := range out {
		same(out[i], kept[i], "outputs of the forward pass unchanged")
	}
	if len(g) != n {
		return
	}
	known := false
	var value float64
	f := func() float64 {
		if !known || !vSymbolic() {
			known = true
			vDrawSeek(first)
			out, err := m.Forward(x, training)
			vAssert(err == nil && len(out) == n+1, "forward pass")
			value = lossOf(loss, out[n], wy)
		}
		return value
	}
	for k := 0; k < n; k++ {
		p, d := ps[n-1-k], g[k]
		if shape(d.DWeights, p.w.Rows, p.w.Cols, "shape of the weight gradient") {
			for i := range p.w.M {
				for j := range p.w.M[i] {
					vGrad("weight gradient", &p.w.M[i][j], f, d.DWeights.M[i][j])
				}
			}
		}
		if shape(d.DBiases, 1, p.b.Cols, "shape of the bias gradient") {
			for j := range p.b.M[0] {
				vGrad("bias gradient", &p.b.M[0][j], f, d.DBiases.M[0][j])
			}
		}
	}
}

func wide(kind int) int {
	if kind == kSoftmax {
		return 2
	}
	return 1
}

// Two layers of every kinds with every loss, one row, one unit each (two where
// there is softmax).
//v: mode=R
func H_C20_Pairs() {
	a, b := vPick("first", 6), vPick("second", 6)
	before := vPick("before", 2) == 1
	training := a != kDropout && b != kDropout || vPick("training", 2) == 1
	c20([]int{a, b}, []int{1, wide(a), wide(b)}, 1, vPick("loss", 4), training, before)
}

// Batches of 2 rows, sizes 1-2-1 and 2-1-2, of the last layers and losses used
// together.
//v: mode=R
func H_C20_Batch() {
	s := pick("sizes", []int{1, 2, 1}, []int{2, 1, 2})
	k := pick("last", []int{kLinear, kMSE}, []int{kLinear, kMAE}, []int{kSigmoid, kBCE}, []int{kSoftmax, kCE})
	if k[0] == kSoftmax && s[2] == 1 {
		return
	}
	c20([]int{[]int{kHidden, kSigmoid}[vPick("first", 2)], k[0]}, s, 2, k[1], true, false)
}

// The same with leaky layers first, and sigmoid outputs with cross-entropy.
//v: mode=R tier=thorough
func H_C20_More() {
	s := pick("sizes", []int{1, 2, 1}, []int{2, 1, 2})
	k := pick("last", []int{kLinear, kMSE}, []int{kLinear, kMAE}, []int{kSigmoid, kBCE}, []int{kSoftmax, kCE}, []int{kSigmoid, kCE})
	if k[0] == kSoftmax && s[2] == 1 {
		return
	}
	c20([]int{[]int{kLeaky, kSigmoid, kDropout}[vPick("first", 3)], k[0]}, s, 2, k[1], true, vPick("before", 2) == 1)
}

// Three layers, one row: the middle one of every kind.
//v: mode=R
func H_C20_Deep() {
	k := pick("last", []int{kLinear, kMSE}, []int{kSigmoid, kBCE}, []int{kSoftmax, kCE})
	m := vPick("middle", 6)
	c20([]int{[]int{kHidden, kSigmoid}[vPick("first", 2)], m, k[0]}, []int{1, 1, wide(m), wide(k[0])}, 1, k[1], true, false)
}

// One layer of every kind with every loss: 1..3 rows, 1..3 inputs and outputs.
//v: mode=R
func H_C20_Single() {
	s := pick("shape", []int{1, 2, 2}, []int{3, 1, 1}, []int{1, 1, 3})
	k := vPick("kind", 6)
	c20([]int{k}, s[1:], s[0], vPick("loss", 4), k != kDropout || vPick("training", 2) == 1, false)
}

// Batches of 2 rows for the same.
//v: mode=R tier=thorough
func H_C20_SingleBatch() {
	s := pick("shape", []int{2, 1, 2}, []int{2, 2, 1}, []int{4, 1, 1})
	k := vPick("kind", 6)
	c20([]int{k}, s[1:], s[0], vPick("loss", 4), k != kDropout || vPick("training", 2) == 1, vPick("before", 2) == 1)
}

// Inputs passed forward, then labels of any shape up to 3x3: refused with an error
// unless they fit, with nothing changed.
func H_C20_Shapes() {
	kind, loss := vPick("kind", 6), vPick("loss", 4)
	r := size("rows", 2)
	ps := symParts([]int{kLinear, kind}, []int{2, 1, 2})
	s := snapshot(ps)
	m := assemble(ps, loss, exactSGD(), nn.RegressionAccuracyType, 0.5)
	x := mat("x", r, 2)
	wx := clone(x)
	out, err := m.Forward(x, false)
	vAssert(err == nil && len(out) == 3, "forward pass")
	y := fill(zeros(size("yr", 3), size("yc", 3)), 1)
	wy := clone(y)
	_, err = m.Backward(out, y)
	vAssert((err == nil) == (y.Rows == r && y.Cols == 2), "refuses exactly the labels that do not fit")
	same(x, wx, "inputs unchanged")
	same(y, wy, "labels unchanged")
	untouched(ps, s, "parameters unchanged")
}

// Batches of 3 rows, and 5 of fewer units, of softmax and sigmoid outputs with the
// losses they are used with, behind a layer with many outputs or none.
//v: mode=R
func H_C20_Rows() {
	k := pick("last", []int{kSoftmax, kCE}, []int{kSigmoid, kBCE}, []int{kLinear, kMSE})
	s := pick("shape", []int{3, 1, 2}, []int{5, 1, 2})
	c20([]int{k[0]}, s[1:], s[0], k[1], true, false)
}

// Five and six layers of one unit each, one row: a layer of every kind at any place
// between linear ones, after one pass or two.
//v: mode=R
func H_C20_Tower() {
	n := 5 + vPick("layers", 2)
	kinds, sizes := make([]int, n), make([]int, n+1)
	for i := range sizes {
		sizes[i] = 1
	}
	for i := range kinds {
		kinds[i] = kLinear
	}
	kinds[vPick("at", n)] = []int{kLinear, kSigmoid, kLeaky}[vPick("kind", 3)]
	c20(kinds, sizes, 1, kMSE, true, vPick("before", 2) == 1)
}

// A linear layer used twice in a row in a model of four: the gradients of its two
// places are those of each place, other layers get theirs.
//v: mode=R
func H_C20_Shared() {
	at := vPick("at", 3)
	ps := symParts([]int{kLinear, kLinear, kLinear}, []int{1, 1, 1, 1})
	var use []int
	for i := range ps {
		use = append(use, i)
		if i == at {
			use = append(use, i)
		}
	}
	var all []part
	for _, i := range use {
		all = append(all, ps[i])
	}
	m := assemble(all, kMSE, exactSGD(), nn.RegressionAccuracyType, 0.5)
	x, y := mat("x", 1, 1), mat("y", 1, 1)
	// the same model with a layer of its own at every place
	var own []part
	for _, i := range use {
		own = append(own, copies(ps[i : i+1])[0])
	}
	twin := assemble(own, kMSE, exactSGD(), nn.RegressionAccuracyType, 0.5)
	out, err := m.Forward(x, true)
	vAssert(err == nil && len(out) == 5, "forward pass")
	ref, err := twin.Forward(x, true)
	vAssert(err == nil && len(ref) == 5, "forward pass")
	g, err := m.Backward(out, y)
	vAssert(err == nil && len(g) == 4, "backward pass")
	w, err := twin.Backward(ref, y)
	vAssert(err == nil && len(w) == 4, "backward pass")
	if len(g) != 4 || len(w) != 4 {
		return
	}
	for k := 0; k < 4; k++ {
		near(g[k].DWeights, w[k].DWeights, "weight gradient of every place")
		near(g[k].DBiases, w[k].DBiases, "bias gradient of every place")
	}
}
