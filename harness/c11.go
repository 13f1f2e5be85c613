package main

import nn "github.com/cubeflix/nn"

func c11(kind, r, c int) {
	l, err := newLoss(kind, c)
	vAssert(err == nil, "loss")
	p, y := lossInputs(kind, r, c)
	wp, wy := clone(p), clone(y)
	j, err := l.Forward(p, y)
	vAssert(err == nil, "accepts what fits")
	vEq(j, lossOf(kind, wp, wy), "loss is the documented average")
	same(p, wp, "predictions unchanged")
	same(y, wy, "labels unchanged")
}

// Mean squared error, 1..3 samples and outputs (4 thorough).
//v: mode=R
func H_C11_Squared() { k := tiered(3, 4); c11(kMSE, size("rows", k), size("cols", k)) }

// Mean absolute error, 1..3 samples and 1..2 outputs (3 thorough); predictions
// at least 1/1024 away from the label.
//v: mode=R
func H_C11_Absolute() { c11(kMAE, size("rows", 3), size("cols", tiered(2, 3))) }

// Cross-entropy, 1..3 samples and outputs (4 thorough), every one-hot label,
// probabilities from 1/1024 to 1023/1024.
//v: mode=R
func H_C11_CrossEntropy() { k := tiered(3, 4); c11(kCE, size("rows", 3), size("cols", k)) }

// Binary cross-entropy, 1..3 samples and outputs (4 thorough), labels in [0,1].
//v: mode=R
func H_C11_BinaryCrossEntropy() { k := tiered(3, 4); c11(kBCE, size("rows", k), size("cols", k)) }

// Long and wide batches.
//v: mode=R
func H_C11_Large() {
	kind := []int{kMSE, kBCE}[vPick("kind", 2)]
	s := pick("shape", []int{9, 1}, []int{1, 9}, []int{5, 3}, []int{17, 1}, []int{1, 33}, []int{3, 11})
	c11(kind, s[0], s[1])
}

// Every loss of size 1..3: predictions and labels of any shape up to 3x4.
func H_C11_Shapes() {
	lossShapes(func(l nn.Loss, p, y nn.Matrix) error { _, err := l.Forward(p, y); return err })
}

// Long and wide batches of the absolute error and the cross-entropy, with the
// signs and labels changing from row to row, any in one row.
//v: mode=R
func H_C11_Long() {
	kind := []int{kMAE, kCE}[vPick("kind", 2)]
	s := longShape(kind)
	l, err := newLoss(kind, s[1])
	vAssert(err == nil, "loss")
	p, y := longInputs(kind, s[0], s[1])
	wp, wy := clone(p), clone(y)
	j, err := l.Forward(p, y)
	vAssert(err == nil, "accepts what fits")
	vEq(j, lossOf(kind, wp, wy), "loss is the documented average")
}

// Batches of more than a thousand predictions, given but for the first, middle and
// last (for cross-entropies: the label of one row); equal up to 2^-30.
//v: mode=R fold
func H_C11_Bulk() {
	kind := vPick("kind", 4)
	r, c := bulkShapes()
	l, err := newLoss(kind, c)
	vAssert(err == nil, "loss")
	p, y := bulkInputs(kind, r, c)
	wp, wy := clone(p), clone(y)
	j, err := l.Forward(p, y)
	vAssert(err == nil, "accepts what fits")
	vEq(j, lossOf(kind, wp, wy), "loss is the documented average")
	same(p, wp, "predictions unchanged")
	same(y, wy, "labels unchanged")
}

// Cross-entropies of probabilities close to the ends, from 2e-7 to 1-2e-7, of 1 and 2
// samples, labels right and wrong; equal up to 2^-30.
//v: mode=R fold
func H_C11_Sure() {
	kind := []int{kCE, kBCE}[vPick("kind", 2)]
	p, y := sureInputs(kind)
	l, err := newLoss(kind, p.Cols)
	vAssert(err == nil, "loss")
	wp, wy := clone(p), clone(y)
	j, err := l.Forward(p, y)
	vAssert(err == nil, "accepts what fits")
	vEq(j, lossOf(kind, wp, wy), "loss is the documented average")
}
