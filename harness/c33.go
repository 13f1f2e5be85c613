package main

import nn "github.com/cubeflix/nn"

func row33(m nn.Matrix, i int) nn.Matrix {
	r := make([]float64, m.Cols)
	copy(r, m.M[i])
	return mk([][]float64{r})
}

// order33 picks an order of the rows.
func order33(n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var o []int
	for len(left) > 0 {
		k := vPick("next row", len(left))
		o = append(o, left[k])
		left = append(left[:k:k], left[k+1:]...)
	}
	return o
}

func arranged(m nn.Matrix, o []int) nn.Matrix {
	p := zeros(m.Rows, m.Cols)
	for i, k := range o {
		copy(p.M[i], m.M[k])
	}
	return p
}

// separate claims that the rows of the output of a batch are the outputs of its
// samples alone, in any order of the batch.
func separate(n, out int, x nn.Matrix, f func(x nn.Matrix) (nn.Matrix, error)) {
	y, err := f(clone(x))
	vAssert(err == nil, "forward pass")
	if !shape(y, n, out, "shape of the output") {
		return
	}
	y = clone(y)
	for i := 0; i < n; i++ {
		a, err := f(row33(x, i))
		vAssert(err == nil, "forward pass of one sample")
		if shape(a, 1, out, "shape of the output of one sample") {
			near(row33(y, i), a, "a row is the output of its sample alone")
		}
	}
	if n > 1 {
		o := order33(n)
		z, err := f(arranged(x, o))
		vAssert(err == nil, "forward pass of the reordered batch")
		if shape(z, n, out, "shape of the output of the reordered batch") {
			near(z, arranged(y, o), "reordering the samples reorders the outputs")
		}
	}
}

// Layers of every kind, without dropout, 1..3 samples in every order, 1..2
// inputs and outputs, any numbers.
func H_C33_Layer() {
	k, n, in, out := vPick("kind", 6), size("rows", 3), size("in", 2), size("out", 2)
	slope := float64(0)
	if k == kLeaky {
		slope = vFinite("slope")
		vAssume(slope >= 0)
	}
	l, _, _ := symLayer(k, in, out, slope, 0.5)
	separate(n, out, mat("x", n, in), func(x nn.Matrix) (nn.Matrix, error) { return infer(l, x) })
}

// The same for larger batches of 5 and 9 samples (thorough: 17), 3 outputs, in
// the given order.
func H_C33_Large() {
	k, n := vPick("kind", 6), []int{5, 9, 17}[vPick("rows", tiered(2, 3))]
	l, _, _ := symLayer(k, 1, 3, 0.25, 0.5)
	x := mat("x", n, 1)
	y, err := infer(l, clone(x))
	vAssert(err == nil, "forward pass")
	if !shape(y, n, 3, "shape of the output") {
		return
	}
	y = clone(y)
	for i := 0; i < n; i++ {
		a, err := infer(l, row33(x, i))
		vAssert(err == nil, "forward pass of one sample")
		if shape(a, 1, 3, "shape of the output of one sample") {
			near(row33(y, i), a, "a row is the output of its sample alone")
		}
	}
}

// Models of two layers, the first of any kind, the second of any other kind,
// 1..3 samples, also in reverse.
func H_C33_Model() {
	k := vPick("kind", 6)
	j := (k + 1 + vPick("next", tiered(2, 5))) % 6
	n := size("rows", 3)
	ps := symParts([]int{k, j}, []int{1, 2, 2})
	m := assemble(ps, 0, exactSGD(), nn.RegressionAccuracyType, 0.5)
	x := mat("x", n, 1)
	y, err := m.Predict(clone(x))
	vAssert(err == nil, "prediction")
	if !shape(y, n, 2, "shape of the prediction") {
		return
	}
	y = clone(y)
	back := make([]int, n)
	for i := 0; i < n; i++ {
		back[i] = n - 1 - i
		a, err := m.Predict(row33(x, i))
		vAssert(err == nil, "prediction of one sample")
		if shape(a, 1, 2, "shape of the prediction of one sample") {
			near(row33(y, i), a, "a row is the prediction of its sample alone")
		}
	}
	z, err := m.Predict(arranged(x, back))
	vAssert(err == nil, "prediction of the reversed batch")
	if shape(z, n, 2, "shape of the prediction of the reversed batch") {
		near(z, arranged(y, back), "reordering the samples reorders the predictions")
	}
}

// Gradients of layers of every kind, without dropout, 1..3 samples, 1..2 inputs
// and outputs: those of the batch are the sums of those of its samples, and the
// gradient of each sample's input is its own.
//v: mode=R
func H_C33_Gradients() {
	k, n, in, out := vPick("kind", 6), size("rows", 3), size("in", 2), size("out", 2)
	slope := float64(0)
	if k == kLeaky {
		slope = vFinite("slope")
		vAssume(slope >= 0)
	}
	l, w, b := symLayer(k, in, out, slope, 0.5)
	x, d := mat("x", n, in), mat("d", n, out)
	offKink(k, affine(x, *w, *b))
	_, err := infer(l, clone(x))
	vAssert(err == nil, "forward pass")
	dw, db, dx, err := l.Backward(clone(x), clone(d))
	vAssert(err == nil, "backward pass")
	if !shape(dw, in, out, "shape of the weight gradients") || !shape(db, 1, out, "shape of the bias gradients") || !shape(dx, n, in, "shape of the input gradients") {
		return
	}
	dw, db, dx = clone(dw), clone(db), clone(dx)
	sw, sb := zeros(in, out), zeros(1, out)
	for i := 0; i < n; i++ {
		_, err := infer(l, row33(x, i))
		vAssert(err == nil, "forward pass of one sample")
		ow, ob, ox, err := l.Backward(row33(x, i), row33(d, i))
		vAssert(err == nil, "backward pass of one sample")
		if !shape(ow, in, out, "shape of the weight gradients of one sample") || !shape(ob, 1, out, "shape of the bias gradients of one sample") {
			return
		}
		add33(sw, ow)
		add33(sb, ob)
		near(row33(dx, i), ox, "the input gradient of a sample is its own")
	}
	near(dw, sw, "the weight gradients are the sums over the samples")
	near(db, sb, "the bias gradients are the sums over the samples")
}

func add33(s, m nn.Matrix) {
	for i := range s.M {
		for j := range s.M[i] {
			s.M[i][j] += m.M[i][j]
		}
	}
}

// The combined gradient of softmax and the mean cross-entropy: 1..3 samples of 1..3
// classes with every label.
//v: mode=R
func H_C33_CrossEntropy() {
	n, out := size("rows", 3), size("out", tiered(2, 3))
	sl, _, _ := symLayer(kSoftmax, 1, out, 0, 0)
	l := sl.(*nn.SoftmaxLayer)
	x, p, y := mat("x", n, 1), mat("p", n, out), zeros(n, out)
	for i := range y.M {
		y.M[i][vPick("label", out)] = 1
	}
	dw, db, dx, err := l.BackwardCrossEntropy(clone(x), clone(y), clone(p))
	vAssert(err == nil, "backward pass")
	sw, sb := zeros(1, out), zeros(1, out)
	if !shape(dw, 1, out, "shape of the weight gradients") || !shape(db, 1, out, "shape of the bias gradients") || !shape(dx, n, 1, "shape of the input gradients") {
		return
	}
	for i := 0; i < n; i++ {
		ow, ob, ox, err := l.BackwardCrossEntropy(row33(x, i), row33(y, i), row33(p, i))
		vAssert(err == nil, "backward pass of one sample")
		add33(sw, ow)
		add33(sb, ob)
		for j := range ox.M[0] {
			ox.M[0][j] /= float64(n)
		}
		near(row33(dx, i), ox, "the input gradient of a sample is its own over the number of samples")
	}
	for j := range sb.M[0] {
		sw.M[0][j] /= float64(n)
		sb.M[0][j] /= float64(n)
	}
	near(dw, sw, "the weight gradients are the averages over the samples")
	near(db, sb, "the bias gradients are the averages over the samples")
}

// Batches of 300 samples of 2 numbers, 40 samples of 40, of given numbers but for
// the first, middle and last of the batch (softmax: all).
//v: fold
func H_C33_Bulk() {
	k := vPick("kind", 6)
	s := pick("shape", []int{300, 2, 2}, []int{40, 40, 3}, []int{40, 2, 40})
	n, in, out := s[0], s[1], s[2]
	slope := float64(0)
	if k == kLeaky {
		slope = 0.25
	}
	l, w, b, err := newLayer(k, in, out, slope, 0.5)
	vAssert(err == nil, "layer")
	put(*w, given(in, out))
	put(*b, given(1, out))
	x := given(n, in)
	if k != kSoftmax {
		x = bulk("x", n, in)
	}
	y, err := infer(l, clone(x))
	vAssert(err == nil, "forward pass")
	if !shape(y, n, out, "shape of the output") {
		return
	}
	y = clone(y)
	for i := 0; i < n; i++ {
		a, err := infer(l, row33(x, i))
		vAssert(err == nil, "forward pass of one sample")
		if shape(a, 1, out, "shape of the output of one sample") {
			near(row33(y, i), a, "a row is the output of its sample alone")
		}
	}
}

// Samples that agree in all inputs but one: 3 or 4 of them, 3 inputs, each differing
// from the first in any place by 1, 1.5 or 2.
//v: fold
func H_C33_Alike() {
	k, n := vPick("kind", 6), 3+vPick("rows", 2)
	l, w, b, err := newLayer(k, 3, 2, 0.25, 0.5)
	vAssert(err == nil, "layer")
	put(*w, mk([][]float64{{0.5, 1}, {1, 0.25}, {0.25, 0.5}}))
	put(*b, mk([][]float64{{0.125, -0.125}}))
	x := zeros(n, 3)
	at, v := vPick("first", n), []float64{1, 1.5, 2}[vPick("by", 3)]
	for i := range x.M {
		x.M[i][0], x.M[i][1], x.M[i][2] = 0.5, -0.25, 0.125
		if i != at {
			x.M[i][vPick("place", 3)] += v
		}
	}
	y, err := infer(l, clone(x))
	vAssert(err == nil, "forward pass")
	if !shape(y, n, 2, "shape of the output") {
		return
	}
	y = clone(y)
	for i := 0; i < n; i++ {
		a, err := infer(l, row33(x, i))
		vAssert(err == nil, "forward pass of one sample")
		if shape(a, 1, 2, "shape of the output of one sample") {
			near(row33(y, i), a, "a row is the output of its sample alone")
		}
	}
}
