package main

import (
	"math"

	nn "github.com/cubeflix/nn"
)

// entropyInputs makes probabilities in [0,1], ends included, and 0/1 labels.
func entropyInputs(kind, r, c int) (p, y nn.Matrix) {
	p = mat("p", r, c)
	for i := range p.M {
		for j := range p.M[i] {
			vAssume(p.M[i][j] >= 0 && p.M[i][j] <= 1)
		}
	}
	if kind == kCE {
		y, _ = oneHot(r, c)
		return p, y
	}
	y = zeros(r, c)
	for i := range y.M {
		for j := range y.M[i] {
			y.M[i][j] = float64(vPick("y", 2))
		}
	}
	return p, y
}

func c13(kind, r, c int) {
	l, err := newLoss(kind, c)
	vAssert(err == nil, "loss")
	p, y := entropyInputs(kind, r, c)
	wp, wy := clone(p), clone(y)
	j, err := l.Forward(p, y)
	vAssert(err == nil, "forward pass")
	vAssert(isFinite(j), "the loss is finite")
	same(p, wp, "predictions unchanged by the forward pass")
	same(y, wy, "labels unchanged by the forward pass")
	d, err := l.Backward(p, y)
	vAssert(err == nil, "backward pass")
	if shape(d, r, c, "shape of the gradient") {
		for i := range d.M {
			for j := range d.M[i] {
				vAssert(isFinite(d.M[i][j]), "the gradient is finite")
			}
		}
	}
	same(p, wp, "predictions unchanged by the backward pass")
	same(y, wy, "labels unchanged by the backward pass")
}

// Cross-entropy, 1..2 samples and 1..3 outputs, every probability in [0,1], 0
// and 1 included, every one-hot label.
//v: lemmas real=no
func H_C13_CrossEntropy() { c13(kCE, size("rows", 2), size("cols", 3)) }

// Binary cross-entropy, 1..2 samples and outputs, the same.
//v: lemmas real=no
func H_C13_BinaryCrossEntropy() { c13(kBCE, size("rows", 2), size("cols", 2)) }

// The losses are not only finite at the ends but tell right from wrong there.
//v: lemmas real=no
func H_C13_Ends() {
	kind := []int{kCE, kBCE}[vPick("kind", 2)]
	l, err := newLoss(kind, 2)
	vAssert(err == nil, "loss")
	y := zeros(1, 2)
	k := vPick("label", 2)
	y.M[0][k] = 1
	right, err := l.Forward(clone(y), y)
	vAssert(err == nil, "forward pass")
	w := zeros(1, 2)
	w.M[0][1-k] = 1
	wrong, err := l.Forward(w, y)
	vAssert(err == nil, "forward pass")
	vAssert(math.Abs(right) < 0.01 && wrong > 10, "a certain prediction costs nothing when right and much when wrong")
}

// Every loss: any finite predictions and labels are left alone, 1..2 samples and
// outputs, by forward and backward passes in any order.
func H_C13_Untouched() {
	kind, r, c := vPick("kind", 4), size("rows", 2), size("cols", 2)
	l, err := newLoss(kind, c)
	vAssert(err == nil, "loss")
	p, y := matAny("p", r, c), matAny("y", r, c)
	wp, wy := clone(p), clone(y)
	for k := 0; k < 2; k++ {
		if vPick("pass", 2) == 0 {
			_, err = l.Forward(p, y)
		} else {
			_, err = l.Backward(p, y)
		}
		vAssert(err == nil, "accepts what fits")
		same(p, wp, "predictions unchanged")
		same(y, wy, "labels unchanged")
	}
}

// Batches of 600 and more predictions of 0, 1/2 and 1 but for one that is next to an
// end, right and wrong ones.
//v: lemmas real=no
func H_C13_Bulk() {
	kind := []int{kCE, kBCE}[vPick("kind", 2)]
	s := pick("shape", []int{300, 2}, []int{2, 300}, []int{40, 17})
	r, c := s[0], s[1]
	l, err := newLoss(kind, c)
	vAssert(err == nil, "loss")
	p, y := zeros(r, c), zeros(r, c)
	for i := range p.M {
		for j := range p.M[i] {
			p.M[i][j] = float64((i+j)%3) / 2
		}
		y.M[i][i%c] = 1
	}
	v := []float64{0, 1, 5e-324, 1e-16, 0.9999999999999999, 1e-7}[vPick("p", 6)]
	p.M[[]int{0, r - 1}[vPick("row", 2)]][[]int{0, c - 1}[vPick("column", 2)]] = v
	wp, wy := clone(p), clone(y)
	j, err := l.Forward(p, y)
	vAssert(err == nil, "forward pass")
	vAssert(isFinite(j), "the loss is finite")
	d, err := l.Backward(p, y)
	vAssert(err == nil, "backward pass")
	if shape(d, r, c, "shape of the gradient") {
		for i := range d.M {
			for j := range d.M[i] {
				vAssert(isFinite(d.M[i][j]), "the gradient is finite")
			}
		}
	}
	same(p, wp, "predictions unchanged")
	same(y, wy, "labels unchanged")
}
