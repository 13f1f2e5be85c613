package main

import (
	"math"

	nn "github.com/cubeflix/nn"
)

// manual trains by hand: one update of every layer for every batch.
func manual(m *nn.Model, ps []part, x, y nn.Matrix, epochs, batch int) {
	n := len(ps)
	for e := 0; e < epochs; e++ {
		for at := 0; at < x.Rows; {
			end := x.Rows
			if batch > 0 && batch < x.Rows-at {
				end = at + batch
			}
			bx := clone(mk(x.M[at:end]))
			by := clone(mk(y.M[at:end]))
			out, err := m.Forward(bx, true)
			vAssert(err == nil, "forward pass by hand")
			g, err := m.Backward(out, by)
			vAssert(err == nil && len(g) == n, "backward pass by hand")
			for i, p := range ps {
				err := m.Optimizers[i].Update(p.w, p.b, g[n-1-i].DWeights, g[n-1-i].DBiases)
				vAssert(err == nil, "update by hand")
			}
			at = end
		}
	}
}

// c21 fits a model and trains its twin by hand on the same draws, then gives
// both one more update to compare the state of the optimizers.
func c21(kinds, sizes []int, rows, loss, opt, epochs, batch int) {
	ps := symParts(kinds, sizes)
	qs := copies(ps)
	acc := nn.AccuracyType(nn.RegressionAccuracyType)
	m := assemble(ps, loss, someSettings(opt), acc, 0.5)
	ref := assemble(qs, loss, someSettings(opt), acc, 0.5)
	n := len(ps)
	x := mat("x", rows, sizes[0])
	y := mat("y", rows, sizes[n])
	if loss == kCE {
		y, _ = oneHot(rows, sizes[n])
	}
	wx, wy := clone(x), clone(y)
	first := vDrawCount()
	none := nn.Matrix{}
	err := m.Fit(x, y, epochs, batch, none, none, 0)
	vAssert(err == nil, "fit")
	vDrawSeek(first)
	manual(ref, qs, wx, wy, epochs, batch)
	for i := range ps {
		near(*ps[i].w, *qs[i].w, "weights as trained by hand")
		near(*ps[i].b, *qs[i].b, "biases as trained by hand")
	}
	vAssert(m.ModelSize == n && len(m.Layers) == n && len(m.Optimizers) == n, "the model keeps its layers")
	for i := range ps {
		vAssert(m.Layers[i] == ps[i].l, "the model keeps its layers")
	}
	if opt == 0 && epochs > 1 {
		return
	}
	for i := range ps {
		p := symParams(sizes[i], sizes[i+1])
		q := p.clone()
		g := symParams(sizes[i], sizes[i+1])
		vAssert(m.Optimizers[i].Update(&p.w, &p.b, g.w, g.b) == nil, "a later update")
		vAssert(ref.Optimizers[i].Update(&q.w, &q.b, g.w, g.b) == nil, "a later update")
		p.near(q, "by a later update as trained by hand")
	}
}

// Batch sizes 0..6 for 1..5 samples, 0..3 epochs, a linear layer, every kind of
// optimizer.
func H_C21_Batches() {
	c21([]int{kLinear}, []int{1, 1}, size("rows", 5), kMSE, vPick("optimizer", 3), vPick("epochs", 4), vPick("batch", 7))
}

// Longer runs: 6..9 samples, batches of 2..4, two epochs.
func H_C21_Long() {
	c21([]int{kLinear}, []int{1, 1}, 6+vPick("rows", tiered(2, 4)), kMSE, 0, 2, 2+vPick("batch", 3))
}

// Every kind of layer, loss and optimizer: two layers, 2 samples one by one.
func H_C21_Kinds() {
	a, b := vPick("first", 6), vPick("last", 6)
	c21([]int{a, b}, []int{1, 1, 1}, 2, vPick("loss", 4), vPick("optimizer", 3), 1, 1)
}

// Two units in every layer, 3 samples in batches of 2.
func H_C21_Wide() {
	a := []int{kHidden, kLeaky, kSigmoid, kLinear}[vPick("first", 4)]
	b := []int{kLinear, kSigmoid}[vPick("last", 2)]
	c21([]int{a, b}, []int{2, 2, 2}, 3, []int{kMSE, kBCE}[vPick("loss", 2)], vPick("optimizer", 3), 1, 2)
}

// Softmax with the fused gradient and without, 2 classes, 2 samples.
func H_C21_Softmax() {
	c21([]int{[]int{kHidden, kLinear}[vPick("first", 2)], kSoftmax}, []int{1, 1, 2}, 2, []int{kCE, kMSE}[vPick("loss", 2)], vPick("optimizer", 3), 1, 1+vPick("batch", 2))
}

// Dropout in one, two or three layers, 2 epochs of 1 or 2 samples.
func H_C21_Dropout() {
	k := [][]int{{kDropout}, {kDropout, kLinear}, {kDropout, kHidden, kDropout}}[vPick("kinds", 3)]
	sizes := []int{1, 1, 1, 1}
	rows := size("rows", 2)
	if len(k) == 3 {
		rows = 1
	}
	c21(k, sizes[:len(k)+1], rows, kMSE, 0, 2, 1)
}

// Batch sizes of any int from the number of samples on.
func H_C21_Huge() {
	rows := size("rows", 3)
	c21([]int{kLinear}, []int{1, 1}, rows, kMSE, 0, 1, vInt("batch", rows, math.MaxInt32))
}

// Logging and validation only observe: the same parameters and optimizer state
// with any of it; 1..2 epochs, every accuracy kind.
func H_C21_Observing() {
	a := []int{kHidden, kDropout}[vPick("first", 2)]
	opt := 1 + vPick("optimizer", 2)
	epochs := size("epochs", 2)
	loss := []int{kMSE, kCE}[vPick("loss", 2)]
	every, val := vPick("every", 4), vPick("validation", 2)
	acc := nn.AccuracyType(vPick("accuracy", 3))
	kinds, sizes := []int{a, kSoftmax}, []int{1, 1, 2}
	ps := symParts(kinds, sizes)
	qs := copies(ps)
	m := assemble(ps, loss, someSettings(opt), acc, 0.5)
	ref := assemble(qs, loss, someSettings(opt), acc, 0.5)
	x := mat("x", 2, 1)
	y := zeros(2, 2)
	y.M[0][0], y.M[1][1] = 1, 1
	vx, vy := nn.Matrix{}, nn.Matrix{}
	if val == 1 {
		vx = mat("vx", 1, 1)
		vy = zeros(1, 2)
		vy.M[0][1] = 1
	}
	first := vDrawCount()
	vAssert(m.Fit(x, y, epochs, 1, vx, vy, every) == nil, "fit")
	vDrawSeek(first)
	manual(ref, qs, x, y, epochs, 1)
	for i := range ps {
		near(*ps[i].w, *qs[i].w, "weights whatever is logged")
		near(*ps[i].b, *qs[i].b, "biases whatever is logged")
	}
	for i := range ps {
		p := symParams(sizes[i], sizes[i+1])
		q := p.clone()
		g := symParams(sizes[i], sizes[i+1])
		vAssert(m.Optimizers[i].Update(&p.w, &p.b, g.w, g.b) == nil, "a later update")
		vAssert(ref.Optimizers[i].Update(&q.w, &q.b, g.w, g.b) == nil, "a later update")
		p.near(q, "by a later update whatever is logged")
	}
}

// Fitting twice is fitting for as many epochs as both together.
func H_C21_Twice() {
	opt, a, b := vPick("optimizer", 3), vPick("a", 2), size("b", 2)
	ps := symParts([]int{kSigmoid}, []int{1, 1})
	qs := copies(ps)
	m := assemble(ps, kMSE, someSettings(opt), nn.RegressionAccuracyType, 0.5)
	ref := assemble(qs, kMSE, someSettings(opt), nn.RegressionAccuracyType, 0.5)
	x, y := mat("x", 2, 1), mat("y", 2, 1)
	none := nn.Matrix{}
	vAssert(m.Fit(x, y, a, 1, none, none, 0) == nil, "fit")
	vAssert(m.Fit(x, y, b, 1, none, none, 0) == nil, "fit")
	vAssert(ref.Fit(x, y, a+b, 1, none, none, 0) == nil, "fit")
	near(*ps[0].w, *qs[0].w, "weights as fitted at once")
	near(*ps[0].b, *qs[0].b, "biases as fitted at once")
}

// A model that may fit its sample perfectly: logging, early or late, changes
// nothing; one sample, 2..3 epochs with momentum or Adam.
func H_C21_Perfect() {
	loss := []int{kMSE, kMAE}[vPick("loss", 2)]
	opt, epochs, every := 1+vPick("optimizer", 2), 2+vPick("epochs", 2), vPick("every", 3)
	acc := nn.AccuracyType(vPick("accuracy", 2) * 2)
	ps := symParts([]int{kLinear}, []int{1, 1})
	qs := copies(ps)
	m := assemble(ps, loss, someSettings(opt), acc, 0.5)
	ref := assemble(qs, loss, someSettings(opt), acc, 0.5)
	x, y := mat("x", 1, 1), mat("y", 1, 1)
	vAssert(m.Fit(x, y, epochs, 1, x, y, every) == nil, "fit")
	manual(ref, qs, x, y, epochs, 1)
	near(*ps[0].w, *qs[0].w, "weights whatever is logged")
	near(*ps[0].b, *qs[0].b, "biases whatever is logged")
}

// Many epochs: 10..13 (thorough: up to 33) over one sample of numbers, a linear
// layer of any parameters, every kind of optimizer (with Adam one given model),
// with and without logging and validation.
//v: fold
func H_C21_Epochs() {
	opt, epochs := vPick("optimizer", 3), 10+vPick("epochs", 4)
	if vTier() > 0 {
		epochs = []int{10, 17, 26, 33}[epochs-10]
	}
	every := []int{0, 1, 5}[vPick("every", 3)]
	ps := symParts([]int{kLinear}, []int{1, 1})
	if opt == 2 {
		ps[0].w.M[0][0], ps[0].b.M[0][0] = 0.75, -0.5
	}
	qs := copies(ps)
	m := assemble(ps, kMSE, someSettings(opt), nn.RegressionAccuracyType, 0.5)
	ref := assemble(qs, kMSE, someSettings(opt), nn.RegressionAccuracyType, 0.5)
	x, y := mk([][]float64{{0.5}}), mk([][]float64{{1.25}})
	vx, vy := nn.Matrix{}, nn.Matrix{}
	if every == 5 {
		vx, vy = x, y
	}
	vAssert(m.Fit(x, y, epochs, 1, vx, vy, every) == nil, "fit")
	manual(ref, qs, x, y, epochs, 1)
	near(*ps[0].w, *qs[0].w, "weights as trained by hand")
	near(*ps[0].b, *qs[0].b, "biases as trained by hand")
}

// Many samples: 33, 65 and 130 of them (thorough: also 300) in batches of 1, 8, 32,
// 64 or all, numbers but for one; one and two epochs of SGD on any parameters.
//v: fold
func H_C21_Samples() {
	n := []int{33, 65, 130, 300}[vPick("samples", tiered(3, 4))]
	batch, epochs := []int{1, 8, 32, 64, 0}[vPick("batch", 5)], size("epochs", 2)
	ps := symParts([]int{kLinear}, []int{1, 1})
	qs := copies(ps)
	m := assemble(ps, kMSE, someSettings(epochs%2), nn.RegressionAccuracyType, 0.5)
	ref := assemble(qs, kMSE, someSettings(epochs%2), nn.RegressionAccuracyType, 0.5)
	x, y := zeros(n, 1), zeros(n, 1)
	for i := range x.M {
		x.M[i][0], y.M[i][0] = float64(i%5)/4-0.5, float64(i%7)/8
	}
	y.M[[]int{0, n / 2, n - 1}[vPick("free", 3)]][0] = vFinite("y")
	none := nn.Matrix{}
	wx, wy := clone(x), clone(y)
	vAssert(m.Fit(x, y, epochs, batch, none, none, 0) == nil, "fit")
	manual(ref, qs, wx, wy, epochs, batch)
	near(*ps[0].w, *qs[0].w, "weights as trained by hand")
	near(*ps[0].b, *qs[0].b, "biases as trained by hand")
}
