package main

import (
	"math"

	nn "github.com/cubeflix/nn"
)

func c03shape() (int, int) {
	s := pick("shape", []int{1, 1}, []int{1, 2}, []int{2, 1}, []int{2, 2}, []int{2, 3}, []int{3, 2}, []int{1, 5}, []int{4, 3}, []int{3, 4}, []int{5, 1}, []int{9, 2}, []int{2, 17})
	return s[0], s[1]
}

// Add and Sub: all elements any float64, twelve shapes up to 9x2 and 2x17, also
// with the same matrix as both operands.
func H_C03_AddSub() {
	r, c := c03shape()
	a := matAny("a", r, c)
	b := matAny("b", r, c)
	if vPick("self", 2) == 1 {
		b = a
	}
	wa, wb := clone(a), clone(b)
	var m nn.Matrix
	var err error
	sub := vPick("op", 2) == 1
	if sub {
		m, err = a.Sub(b)
	} else {
		m, err = a.Add(b)
	}
	vAssert(err == nil, "equal shapes are accepted")
	if !shape(m, r, c, "result shape") {
		return
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if sub {
				vSame(m.M[i][j], wa.M[i][j]-wb.M[i][j], "difference")
			} else {
				vSame(m.M[i][j], wa.M[i][j]+wb.M[i][j], "sum")
			}
		}
	}
	same(a, wa, "left operand unchanged")
	same(b, wb, "right operand unchanged")
	apart(m, a, "result has its own storage")
	apart(m, b, "result has its own storage")
	rowsApart(m, "result rows have their own storage")
}

// Add and Sub of matrices of two independent shapes up to 3x3 (4x4 thorough).
func H_C03_Shapes() {
	k := tiered(3, 4)
	r, c := size("r", k), size("c", k)
	r2, c2 := size("r2", k), size("c2", k)
	a, b := matAny("a", r, c), matAny("b", r2, c2)
	wa, wb := clone(a), clone(b)
	var err error
	if vPick("op", 2) == 1 {
		_, err = a.Sub(b)
	} else {
		_, err = a.Add(b)
	}
	vAssert((err == nil) == (r == r2 && c == c2), "refuses exactly different shapes")
	same(a, wa, "left operand unchanged")
	same(b, wb, "right operand unchanged")
}

// Neg, AddScalar, MulScalar: all elements and the scalar any float64.
func H_C03_Scalar() {
	r, c := c03shape()
	a := matAny("a", r, c)
	wa := clone(a)
	x := vFloat("x")
	op := vPick("op", 3)
	var m nn.Matrix
	switch op {
	case 0:
		m = a.Neg()
	case 1:
		m = a.AddScalar(x)
	case 2:
		m = a.MulScalar(x)
	}
	if !shape(m, r, c, "result shape") {
		return
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			switch op {
			case 0:
				vSame(m.M[i][j], -wa.M[i][j], "negation")
			case 1:
				vSame(m.M[i][j], wa.M[i][j]+x, "sum with the scalar")
			case 2:
				vSame(m.M[i][j], wa.M[i][j]*x, "product with the scalar")
			}
		}
	}
	same(a, wa, "operand unchanged")
	apart(m, a, "result has its own storage")
	rowsApart(m, "result rows have their own storage")
}

// PowScalar: all elements any float64, the exponent any finite number, and the
// exponents 2, 3, 0.5, 1, 0 and -1.
func H_C03_Pow() {
	r, c := c03shape()
	a := matAny("a", r, c)
	wa := clone(a)
	k := vPick("exponent", 7)
	x := vFinite("x")
	if k < 6 {
		x = []float64{2, 3, 0.5, 1, 0, -1}[k]
	}
	m := a.PowScalar(x)
	if !shape(m, r, c, "result shape") {
		return
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			vEq(m.M[i][j], math.Pow(wa.M[i][j], x), "power")
		}
	}
	same(a, wa, "operand unchanged")
	apart(m, a, "result has its own storage")
	rowsApart(m, "result rows have their own storage")
}

// PowScalar of infinities, zeros, NaN, 1 and -1 (any one of them, at every place of
// a matrix of free elements) with special and common exponents: what IEEE 754
// says, to the sign of a zero.
func H_C03_PowSpecial() {
	s := pick("shape", []int{1, 1}, []int{2, 3}, []int{9, 1}, []int{1, 5})
	a := matAny("a", s[0], s[1])
	v := []float64{math.Inf(1), math.Inf(-1), math.NaN(), 0, math.Copysign(0, -1), 1, -1}[vPick("special", 7)]
	x := []float64{2, 3, 0.5, 1, 0, -1, -0.5, -2, 4, math.Inf(1), math.Inf(-1), math.NaN()}[vPick("exponent", 12)]
	i, j := vPick("row", s[0]), vPick("column", s[1])
	a.M[i][j] = v
	wa := clone(a)
	m := a.PowScalar(x)
	if shape(m, s[0], s[1], "result shape") {
		w := math.Pow(v, x)
		if math.IsNaN(w) {
			vAssert(math.IsNaN(m.M[i][j]), "the power of a special value is no number where IEEE 754 says so")
		} else {
			vAssert(m.M[i][j] == w, "the power of a special value")
		}
	}
	same(a, wa, "operand unchanged")
}

// Every operation on seven larger shapes up to 300x1, 1x300 and 18x18, every
// element and the scalar any float64 (for powers: the exponents 2 and 0.5).
func H_C03_Long() {
	r, c := longShapes()
	a := matAny("a", r, c)
	wa := clone(a)
	var m nn.Matrix
	var err error
	op := vPick("op", 6)
	x := vFloat("x")
	b := a
	if op < 2 {
		b = matAny("b", r, c)
	}
	wb := clone(b)
	switch op {
	case 0:
		m, err = a.Add(b)
	case 1:
		m, err = a.Sub(b)
	case 2:
		m = a.Neg()
	case 3:
		m = a.AddScalar(x)
	case 4:
		m = a.MulScalar(x)
	default:
		x = []float64{2, 0.5}[vPick("exponent", 2)]
		m = a.PowScalar(x)
	}
	vAssert(err == nil, "equal shapes are accepted")
	if !shape(m, r, c, "result shape") {
		return
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			switch op {
			case 0:
				vSame(m.M[i][j], wa.M[i][j]+wb.M[i][j], "sum")
			case 1:
				vSame(m.M[i][j], wa.M[i][j]-wb.M[i][j], "difference")
			case 2:
				vSame(m.M[i][j], -wa.M[i][j], "negation")
			case 3:
				vSame(m.M[i][j], wa.M[i][j]+x, "sum with the scalar")
			case 4:
				vSame(m.M[i][j], wa.M[i][j]*x, "product with the scalar")
			default:
				vEq(m.M[i][j], math.Pow(wa.M[i][j], x), "power")
			}
		}
	}
	scribbled(m, "result rows have their own storage")
	same(a, wa, "operand unchanged")
	same(b, wb, "right operand unchanged")
}

// Every operation on matrices of more than a thousand elements, the first, middle
// and last of any value.
func H_C03_Bulk() {
	r, c := bulkShapes()
	a, b := bulk("a", r, c), bulk("b", r, c)
	wa, wb := clone(a), clone(b)
	x := vFloat("x")
	var m nn.Matrix
	var err error
	op := vPick("op", 6)
	switch op {
	case 0:
		m, err = a.Add(b)
	case 1:
		m, err = a.Sub(b)
	case 2:
		m = a.Neg()
	case 3:
		m = a.AddScalar(x)
	case 4:
		m = a.MulScalar(x)
	default:
		m = a.PowScalar(3)
	}
	vAssert(err == nil, "equal shapes are accepted")
	if !shape(m, r, c, "result shape") {
		return
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			p, q := wa.M[i][j], wb.M[i][j]
			switch op {
			case 0:
				vSame(m.M[i][j], p+q, "sum")
			case 1:
				vSame(m.M[i][j], p-q, "difference")
			case 2:
				vSame(m.M[i][j], -p, "negation")
			case 3:
				vSame(m.M[i][j], p+x, "sum with a scalar")
			case 4:
				vSame(m.M[i][j], p*x, "product with a scalar")
			default:
				vEq(m.M[i][j], math.Pow(p, 3), "power")
			}
		}
	}
	scribbled(m, "result rows have their own storage")
	same(a, wa, "operand unchanged")
	same(b, wb, "operand unchanged")
}
