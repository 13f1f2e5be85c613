package main

import (
	"math"

	nn "github.com/cubeflix/nn"
)

// probability claims that every element lies in [0,1].
func probability(y nn.Matrix, label string) {
	for i := range y.M {
		for j := range y.M[i] {
			vAssert(isFinite(y.M[i][j]) && y.M[i][j] >= 0 && y.M[i][j] <= 1, label)
		}
	}
}

// softmaxOf is the softmax of the rows of z, by the activation function or by a
// layer whose biases are that row.
func softmaxOf(z nn.Matrix) nn.Matrix {
	if vPick("by", 2) == 0 {
		return nn.Softmax(clone(z))
	}
	l, err := nn.NewSoftmaxLayer(1, z.Cols)
	vAssert(err == nil, "layer")
	y := zeros(z.Rows, z.Cols)
	for i := range z.M {
		copy(l.Biases.M[0], z.M[i])
		o, err := l.Forward(zeros(1, 1))
		vAssert(err == nil, "forward pass")
		copy(y.M[i], o.M[0])
	}
	return y
}

// The softmax function and layer: 1..2 rows of 1..4 (5 thorough) elements, every
// finite value.
//v: lemmas real=no
func H_C09_Range() {
	r, c := size("rows", 2), size("cols", tiered(4, 5))
	y := softmaxOf(mat("z", r, c))
	if shape(y, r, c, "shape") {
		probability(y, "softmax outputs are numbers in [0,1]")
	}
}

// The same shapes over the reals: sums, ratios, shifts.
//v: mode=R
func H_C09_Sum() {
	r, c := size("rows", 2), size("cols", tiered(4, 5))
	z := mat("z", r, c)
	y := softmaxOf(z)
	if !shape(y, r, c, "shape") {
		return
	}
	j, k := vPick("j", c), vPick("k", c)
	for i := range y.M {
		s := float64(0)
		for j := range y.M[i] {
			s += y.M[i][j]
		}
		vEq(s, 1, "the outputs of a row sum to 1")
		if z.M[i][j] >= z.M[i][k] {
			vEq(y.M[i][j]*math.Exp(z.M[i][k]-z.M[i][j]), y.M[i][k], "outputs are in the ratio of the exponentials")
		}
	}
	a := vFinite("shift")
	for i := range z.M {
		for j := range z.M[i] {
			z.M[i][j] += a
		}
	}
	near(nn.Softmax(z), y, "a common shift changes nothing")
}

// Rows of 12 and of 40 equal or very unequal large numbers.
//v: lemmas real=no
func H_C09_Long() {
	c := []int{12, 40}[vPick("cols", 2)]
	at := vPick("at", 3)
	big := vFinite("big")
	z := fill(zeros(1, c), 0)
	z.M[0][[]int{0, c / 2, c - 1}[at]] = big
	y := nn.Softmax(z)
	if shape(y, 1, c, "shape") {
		probability(y, "softmax outputs are numbers in [0,1]")
	}
}

// The logistic function and the sigmoid layer: every finite number.
//v: lemmas real=no
func H_C09_Logistic() {
	r, c := size("rows", 2), size("cols", 3)
	z := mat("z", r, c)
	y := nn.Sigmoid(clone(z))
	if shape(y, r, c, "shape") {
		probability(y, "logistic outputs are numbers in [0,1]")
	}
	l, err := nn.NewSigmoidLayer(1, c)
	vAssert(err == nil, "layer")
	copy(l.Biases.M[0], z.M[0])
	o, err := l.Forward(zeros(1, 1))
	vAssert(err == nil, "forward pass")
	probability(o, "sigmoid layer outputs are numbers in [0,1]")
}

// Rows of 300 and 1100 elements and 300 rows of 2: given numbers (spread over a few
// units or thousands), 20 rows of 2 but for one; a number in [0,1] everywhere.
//v: lemmas real=no
func H_C09_Bulk() {
	s := pick("shape", []int{1, 300}, []int{1, 1100}, []int{300, 2}, []int{20, 2})
	r, c := s[0], s[1]
	z := given(r, c)
	scale := []float64{1, 4000}[vPick("scale", 2)]
	for i := range z.M {
		for j := range z.M[i] {
			z.M[i][j] *= scale
		}
	}
	if r == 20 {
		z.M[[]int{0, r - 1}[vPick("row", 2)]][vPick("column", 2)] = vFinite("z")
	}
	y := nn.Softmax(clone(z))
	if shape(y, r, c, "shape") {
		probability(y, "softmax outputs are numbers in [0,1]")
	}
	y = nn.Sigmoid(clone(z))
	if shape(y, r, c, "shape") {
		probability(y, "logistic outputs are numbers in [0,1]")
	}
}

// The same shapes and given numbers only, sums and ratios, and rows far apart from
// each other by thousands; equal up to 2^-30.
//v: mode=R fold
func H_C09_BulkSum() {
	s := pick("shape", []int{1, 300}, []int{1, 1100}, []int{300, 2}, []int{2, 2}, []int{3, 4})
	r, c := s[0], s[1]
	z := given(r, c)
	apart := []float64{0, 3000, -3000}[vPick("apart", 3)]
	for i := range z.M {
		for j := range z.M[i] {
			z.M[i][j] += apart * float64(i%3)
		}
	}
	y := nn.Softmax(clone(z))
	if !shape(y, r, c, "shape") {
		return
	}
	for i := range y.M {
		s := float64(0)
		for j := range y.M[i] {
			s += y.M[i][j]
			vEq(y.M[i][j], y.M[i][0]*math.Exp(z.M[i][j]-z.M[i][0]), "outputs are in the ratio of the exponentials")
		}
		vEq(s, 1, "the outputs of a row sum to 1")
	}
}
