package main

import (
	"math"

	nn "github.com/cubeflix/nn"
)

// drawn checks that the weights are draws first..., each used once, in row or
// column order, at the scale of the number of inputs.
func drawn(w nn.Matrix, in, out, first int) bool {
	if !shape(w, in, out, "shape of the weights") {
		return false
	}
	vAssert(vDrawCount() >= first+in*out, "every weight has its own draw")
	if vDrawCount() < first+in*out {
		return false
	}
	for k := 0; k < in*out; k++ {
		if vDrawKind(first+k) != "n" {
			vUndecided("weights drawn by other means than NormFloat64")
		}
	}
	s := math.Sqrt(2 / float64(in))
	rows, cols := true, true
	for i := range w.M {
		for j := range w.M[i] {
			rows = rows && close31(w.M[i][j], vDraw(first+i*out+j)*s)
			cols = cols && close31(w.M[i][j], vDraw(first+j*in+i)*s)
		}
	}
	vAssert(rows || cols, "every weight is its own draw times sqrt(2/inputs)")
	return true
}

// close31 allows for rounding.
func close31(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(b))
}

// initialized claims that Init sets the weights, from its own draws, and leaves
// the biases.
func initialized(l nn.Layer, in, out int) {
	_, _, _, _, _, w, b := details(l)
	cb, first := clone(*b), vDrawCount()
	l.Init()
	drawn(*w, in, out, first)
	same(*b, cb, "biases unchanged")
	rowsApart(*w, "rows share no storage")
}

// Layers of every kind, 1..3 inputs, 1..3 outputs, newly made: the biases are
// zero.
//v: mode=R
func H_C31_New() {
	in, out, k := size("in", 3), size("out", 3), vPick("kind", 6)
	l, _, b, err := newLayer(k, in, out, 0.25, 0.5)
	vAssert(err == nil, "layer")
	initialized(l, in, out)
	same(*b, zeros(1, out), "the biases of a new layer are zero")
}

// Layers of every kind, 1..2 inputs and outputs, with any weights and biases,
// initialized twice.
//v: mode=R
func H_C31_Again() {
	in, out, k := size("in", 2), size("out", 2), vPick("kind", 6)
	l, _, _ := symLayer(k, in, out, 0.25, 0.5)
	from := vSeeds()
	initialized(l, in, out)
	initialized(l, in, out)
	freshSeeds(from, "no initialization repeats the random numbers of another")
}

// Larger layers: 1x9, 9x1, 5x4, 17x1 (thorough: 1x33, 33x1, 9x9), every kind.
//v: mode=R
func H_C31_Large() {
	t := pick("shape", []int{1, 9}, []int{9, 1}, []int{5, 4}, []int{17, 1}, []int{1, 33}, []int{33, 1}, []int{9, 9})
	l, _, _ := symLayer(vPick("kind", 6), t[0], t[1], 0.25, 0.5)
	initialized(l, t[0], t[1])
}

// Models of 1..3 layers of every kind with any parameters: every layer gets its
// own draws.
//v: mode=R
func H_C31_Model() {
	k, n := vPick("kind", 6), size("layers", 3)
	kinds, sizes := []int{k}, []int{2, 2}
	if n > 1 {
		kinds, sizes = append(kinds, (k+2)%6), append(sizes, 1)
	}
	if n > 2 {
		kinds, sizes = append(kinds, kLinear), append(sizes, 3)
	}
	ps := symParts(kinds, sizes)
	m := assemble(ps, 0, exactSGD(), nn.RegressionAccuracyType, 0.5)
	old := snapshot(ps)
	first, from := vDrawCount(), vSeeds()
	m.InitLayers()
	taken := 0
	for i, p := range ps {
		at := first
		for j := 0; j < i; j++ {
			at += sizes[j] * sizes[j+1]
		}
		drawn(*p.w, sizes[i], sizes[i+1], at)
		same(*p.b, old[i].b, "biases unchanged")
		taken += sizes[i] * sizes[i+1]
	}
	vAssert(vDrawCount() >= first+taken, "every weight has its own draw")
	freshSeeds(from, "no layer repeats the random numbers of another")
}


// Linear layers of 70 inputs or outputs, of 65x2 and of 17x17.
//v: mode=R
func H_C31_Bulk() {
	t := pick("shape", []int{1, 70}, []int{70, 1}, []int{17, 17}, []int{65, 2})
	l, _, _, err := newLayer(kLinear, t[0], t[1], 0, 0)
	vAssert(err == nil, "layer")
	initialized(l, t[0], t[1])
}
