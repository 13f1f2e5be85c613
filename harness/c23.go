package main

import (
	"bytes"

	nn "github.com/cubeflix/nn"
)

// c23 saves a layer of the kind and sizes and loads it again.
func c23(kind, in, out int) {
	slope, rate := vFloat("slope"), vFloat("rate")
	vAssume(slope >= 0 && rate >= 0 && rate <= 1)
	l, w, b, err := newLayer(kind, in, out, slope, rate)
	vAssert(err == nil, "layer")
	setParams(w, b)
	cw, cb := clone(*w), clone(*b)
	var buf bytes.Buffer
	data := nn.NewSavedLayerData(l)
	vAssert(data.SerializeLayer(&buf) == nil, "a layer is saved")
	isLayer(l, kind, slope, rate, cw, cb, "saving leaves the layer unchanged")
	n := buf.Len()
	tail := []byte{vByte("tail"), vByte("tail"), vByte("tail")}
	nt := vPick("tail", 4)
	buf.Write(tail[:nt])
	r, err := nn.LoadLayer(&buf)
	vAssert(err == nil, "what was written is loaded")
	if err != nil {
		return
	}
	if !isLayer(r, kind, slope, rate, cw, cb, "the loaded layer") {
		return
	}
	sameBytes(buf.Bytes(), tail[:nt], "exactly the written bytes are consumed")
	_, _, _, _, _, rw, rb := details(r)
	apart(*rw, *w, "no storage is shared with the saved layer")
	apart(*rb, *b, "no storage is shared with the saved layer")
	rowsApart(*rw, "rows share no storage")
	buf.Reset()
	again := nn.NewSavedLayerData(r)
	vAssert(again.SerializeLayer(&buf) == nil, "the loaded layer is saved")
	vAssert(buf.Len() == n, "and has the same size")
}

// Every kind and sizes 1..3 with any slope and dropout that can be, and
// parameters of any value at all, with 0..3 bytes of any value after.
func H_C23_Layer() {
	c23(vPick("kind", 6), size("in", 3), size("out", 3))
}

// Every kind and larger sizes: 17x2 and 2x17 (quick), also 40x5 and 5x130 (thorough).
func H_C23_Large() {
	s := pick("shape", [][]int{{17, 2}, {2, 17}, {40, 5}, {5, 130}}[:tiered(2, 4)]...)
	c23(vPick("kind", 6), s[0], s[1])
}

// The loaded layer computes the same outputs and gradients as the saved one:
// every kind, sizes 1..2, batches of 1..2.
func H_C23_Same() {
	kind, in, out, n := vPick("kind", 6), size("in", 2), size("out", 2), size("n", 2)
	l, _, _ := symLayer(kind, in, out, 0.25, 0)
	buf := bytes.NewBuffer(saved(l, "a layer is saved"))
	r, err := nn.LoadLayer(buf)
	vAssert(err == nil, "what was written is loaded")
	if err != nil {
		return
	}
	x := mat("x", n, in)
	y, err := infer(l, clone(x))
	vAssert(err == nil, "forward pass")
	z, err := infer(r, clone(x))
	vAssert(err == nil, "forward pass of the loaded layer")
	same(z, y, "the loaded layer computes the same outputs")
	dy := mat("dy", n, out)
	dw, db, dx, err := l.Backward(clone(x), clone(dy))
	vAssert(err == nil, "backward pass")
	ew, eb, ex, err := r.Backward(clone(x), clone(dy))
	vAssert(err == nil, "backward pass of the loaded layer")
	same(ew, dw, "the loaded layer computes the same weight gradients")
	same(eb, db, "the loaded layer computes the same bias gradients")
	same(ex, dx, "the loaded layer computes the same input gradients")
}

// A dropout layer loaded again drops by the same rate on the same draws:
// sizes 1..2, rates 1/4 and 3/4.
func H_C23_Dropout() {
	in, out := size("in", 2), size("out", 2)
	rate := []float64{0.25, 0.75}[vPick("rate", 2)]
	l, _, _ := symLayer(kDropout, in, out, 0, rate)
	r, err := nn.LoadLayer(bytes.NewBuffer(saved(l, "a layer is saved")))
	vAssert(err == nil, "what was written is loaded")
	if err != nil {
		return
	}
	x := mat("x", 1, in)
	at := vDrawCount()
	y, err := l.Forward(clone(x))
	vAssert(err == nil, "forward pass")
	vDrawSeek(at)
	z, err := r.Forward(clone(x))
	vAssert(err == nil, "forward pass of the loaded layer")
	same(z, y, "the loaded layer computes the same outputs")
}

// Several layers of different kinds in one buffer, read back one after another.
func H_C23_Several() {
	k := vPick("kind", 6)
	var buf bytes.Buffer
	vAssert(buf.WriteByte(vByte("head")) == nil, "write")
	var ws, bs []nn.Matrix
	slope, rate := vFloat("slope"), vFloat("rate")
	vAssume(slope >= 0 && rate >= 0 && rate <= 1)
	for i := 0; i < 3; i++ {
		l, w, b, err := newLayer((k+i)%6, 1+i, 3-i, slope, rate)
		vAssert(err == nil, "layer")
		setParams(w, b)
		ws, bs = append(ws, clone(*w)), append(bs, clone(*b))
		d := nn.NewSavedLayerData(l)
		vAssert(d.SerializeLayer(&buf) == nil, "a layer is saved after what the buffer holds")
	}
	_, err := buf.ReadByte()
	vAssert(err == nil, "the head is kept")
	for i := 0; i < 3; i++ {
		r, err := nn.LoadLayer(&buf)
		vAssert(err == nil, "what was written is loaded")
		if err != nil {
			return
		}
		isLayer(r, (k+i)%6, slope, rate, ws[i], bs[i], "the loaded layer")
	}
	vAssert(buf.Len() == 0, "exactly the written bytes are consumed")
}

// Parameters that do not match the declared sizes: weights and biases of sizes
// 1..2 against declared sizes of any int or 1..3.
func H_C23_Refused() {
	kind, in, out := vPick("kind", 6), dim("in", 3), dim("out", 3)
	wr, wc, br, bc := size("wr", 2), size("wc", 2), size("br", 2), size("bc", 2)
	d := nn.SavedLayerData{Type: nn.LayerType(kind), Inputs: in, Outputs: out, Slope: 0.25, Dropout: 0.5,
		Weights: matAny("w", wr, wc), Biases: matAny("b", br, bc)}
	var buf bytes.Buffer
	err := d.SerializeLayer(&buf)
	vAssert((err == nil) == (wr == in && wc == out && br == 1 && bc == out), "refuses exactly the parameters that do not match")
}

// c23far is a layer of which most parameters are numbers, and the first, middle
// and last are any.
func c23far(in, out int) {
	l, w, b, err := newLayer(kLinear, in, out, 0, 0)
	vAssert(err == nil, "layer")
	for i := range w.M {
		for j := range w.M[i] {
			w.M[i][j] = float64(i*out+j) / 8
		}
	}
	for j := range b.M[0] {
		b.M[0][j] = -float64(j)
	}
	w.M[0][0], w.M[in/2][out/2], w.M[in-1][out-1] = vFloat("w"), vFloat("w"), vFloat("w")
	b.M[0][0], b.M[0][out/2], b.M[0][out-1] = vFloat("b"), vFloat("b"), vFloat("b")
	cw, cb := clone(*w), clone(*b)
	buf := bytes.NewBuffer(saved(l, "a layer is saved"))
	tail := vByte("tail")
	buf.Write([]byte{tail})
	r, err := nn.LoadLayer(buf)
	vAssert(err == nil, "what was written is loaded")
	if err != nil {
		return
	}
	isLayer(r, kLinear, 0, 0, cw, cb, "the loaded layer")
	sameBytes(buf.Bytes(), []byte{tail}, "exactly the written bytes are consumed")
}

// Sizes beyond one and two bytes: 257x2, 2x257, 40x40, 1x33000 and 33000x1
// (thorough: also 1x70000 and 70000x1).
//v: steps=100000000
func H_C23_Far() {
	s := pick("shape", [][]int{{257, 2}, {2, 257}, {40, 40}, {1, 33000}, {33000, 1}, {1, 70000}, {70000, 1}}[:tiered(5, 7)]...)
	c23far(s[0], s[1])
}
