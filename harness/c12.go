package main

import nn "github.com/cubeflix/nn"

func c12(kind, r, c int) {
	l, err := newLoss(kind, c)
	vAssert(err == nil, "loss")
	p, y := lossInputs(kind, r, c)
	wp, wy := clone(p), clone(y)
	if vPick("forward first", 2) == 1 {
		_, err := l.Forward(p, y)
		vAssert(err == nil, "forward pass")
	}
	d, err := l.Backward(p, y)
	vAssert(err == nil, "accepts what fits")
	same(p, wp, "predictions unchanged")
	same(y, wy, "labels unchanged")
	apart(d, p, "the gradient has its own storage")
	apart(d, y, "the gradient has its own storage")
	if shape(d, r, c, "shape of the gradient") {
		// the derivative of the forward pass itself, and of the definition
		g := clone(wp)
		for i := range g.M {
			for j := range g.M[i] {
				vGrad("gradient of the forward pass", &g.M[i][j], func() float64 {
					v, err := l.Forward(clone(g), wy)
					vAssert(err == nil, "forward pass")
					return v
				}, d.M[i][j])
				vGrad("gradient of the documented loss", &g.M[i][j], func() float64 { return lossOf(kind, g, wy) }, d.M[i][j])
			}
		}
	}
}

// Mean squared error, 1..3 samples and outputs (4 thorough).
//v: mode=R
func H_C12_Squared() { k := tiered(3, 4); c12(kMSE, size("rows", k), size("cols", k)) }

// Mean absolute error, 1..3 samples and 1..2 outputs (3 thorough); predictions
// at least 1/1024 away from the label.
//v: mode=R
func H_C12_Absolute() { c12(kMAE, size("rows", tiered(2, 3)), size("cols", tiered(2, 3))) }

// Cross-entropy, 1..3 samples and outputs (4 thorough), every one-hot label,
// probabilities from 1/1024 to 1023/1024.
//v: mode=R
func H_C12_CrossEntropy() { k := tiered(3, 4); c12(kCE, size("rows", 3), size("cols", k)) }

// Binary cross-entropy, 1..2 samples and outputs (3 thorough), labels in [0,1].
//v: mode=R
func H_C12_BinaryCrossEntropy() { k := tiered(2, 3); c12(kBCE, size("rows", k), size("cols", k)) }

// Long and wide batches.
//v: mode=R
func H_C12_Large() {
	kind := []int{kMSE, kBCE}[vPick("kind", 2)]
	s := pick("shape", []int{9, 1}, []int{1, 9}, []int{4, 3}, []int{17, 1}, []int{1, 17})
	c12(kind, s[0], s[1])
}

// Every loss of size 1..3: predictions and labels of any shape up to 3x4.
func H_C12_Shapes() {
	lossShapes(func(l nn.Loss, p, y nn.Matrix) error { _, err := l.Backward(p, y); return err })
}

// The gradient of the absolute error is the sign of the difference over the number
// of elements, however small the difference; long and wide batches of it and of
// the cross-entropy, with the signs and labels changing from row to row.
//v: mode=R
func H_C12_Long() {
	kind := []int{kMAE, kCE}[vPick("kind", 2)]
	s := longShape(kind)
	l, err := newLoss(kind, s[1])
	vAssert(err == nil, "loss")
	p, y := longInputs(kind, s[0], s[1])
	wp, wy := clone(p), clone(y)
	d, err := l.Backward(p, y)
	vAssert(err == nil, "accepts what fits")
	if !shape(d, s[0], s[1], "shape of the gradient") {
		return
	}
	for i := range d.M {
		for j := range d.M[i] {
			if kind == kCE {
				if wy.M[i][j] == 1 {
					vEq(d.M[i][j], -1/(wp.M[i][j]*float64(s[0])), "gradient of the cross-entropy at the label")
				} else {
					vEq(d.M[i][j], 0, "no gradient of the cross-entropy off the label")
				}
				continue
			}
			g := 1 / float64(s[0]*s[1])
			if wp.M[i][j] < wy.M[i][j] {
				g = -g
			}
			vEq(d.M[i][j], g, "gradient of the absolute error")
		}
	}
}

// Absolute errors of any size but 0, 1..2 samples and outputs.
//v: mode=R
func H_C12_Small() {
	r, c := size("rows", 2), size("cols", 2)
	l, err := newLoss(kMAE, c)
	vAssert(err == nil, "loss")
	p, y := mat("p", r, c), mat("y", r, c)
	g := zeros(r, c)
	for i := range p.M {
		for j := range p.M[i] {
			if vPick("above", 2) == 1 {
				vAssume(p.M[i][j] > y.M[i][j])
				g.M[i][j] = 1 / float64(r*c)
			} else {
				vAssume(p.M[i][j] < y.M[i][j])
				g.M[i][j] = -1 / float64(r*c)
			}
		}
	}
	d, err := l.Backward(p, y)
	vAssert(err == nil, "accepts what fits")
	near(d, g, "gradient of the absolute error")
}

// Batches of more than a thousand predictions, given but for the first, middle and
// last (for cross-entropies: the labels); equal up to 2^-30.
//v: mode=R fold
func H_C12_Bulk() {
	kind := vPick("kind", 4)
	r, c := bulkShapes()
	l, err := newLoss(kind, c)
	vAssert(err == nil, "loss")
	p, y := bulkInputs(kind, r, c)
	wp, wy := clone(p), clone(y)
	d, err := l.Backward(p, y)
	vAssert(err == nil, "accepts what fits")
	same(p, wp, "predictions unchanged")
	same(y, wy, "labels unchanged")
	if !shape(d, r, c, "shape of the gradient") {
		return
	}
	n := float64(r * c)
	for i := range d.M {
		for j := range d.M[i] {
			q, t, g := wp.M[i][j], wy.M[i][j], float64(0)
			switch kind {
			case kMSE:
				g = 2 * (q - t) / n
			case kMAE:
				g = 1 / n
				if q < t {
					g = -g
				}
			case kCE:
				if t == 1 {
					g = -1 / (q * float64(r))
				}
			default:
				g = ((1-t)/(1-q) - t/q) / n
			}
			vEq(d.M[i][j], g, "gradient of the documented loss")
		}
	}
}

// Gradients of the cross-entropies at probabilities close to the ends, from 2e-7 to
// 1-2e-7, of 1 and 2 samples, labels right and wrong.
//v: mode=R fold
func H_C12_Sure() {
	kind := []int{kCE, kBCE}[vPick("kind", 2)]
	p, y := sureInputs(kind)
	l, err := newLoss(kind, p.Cols)
	vAssert(err == nil, "loss")
	wp, wy := clone(p), clone(y)
	d, err := l.Backward(p, y)
	vAssert(err == nil, "accepts what fits")
	if !shape(d, p.Rows, p.Cols, "shape of the gradient") {
		return
	}
	for i := range d.M {
		for j := range d.M[i] {
			q, t, g := wp.M[i][j], wy.M[i][j], float64(0)
			if kind == kBCE {
				g = ((1-t)/(1-q) - t/q) / float64(p.Rows*p.Cols)
			} else if t == 1 {
				g = -1 / (q * float64(p.Rows))
			}
			vEq(d.M[i][j], g, "gradient of the documented loss")
		}
	}
}
