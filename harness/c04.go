package main

import "math"

func c04check(r, n, c int) {
	a, b := mat("a", r, n), mat("b", n, c)
	if r == n && n == c && vPick("self", 2) == 1 {
		b = a
	}
	wa, wb := clone(a), clone(b)
	m, err := a.Dot(b)
	vAssert(err == nil, "matching inner dimensions are accepted")
	same(a, wa, "left operand unchanged")
	same(b, wb, "right operand unchanged")
	if !shape(m, r, c, "result shape") {
		return
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			vEq(m.M[i][j], product(i, j, wa.M, wb.M), "element of the product")
		}
	}
	apart(m, a, "result has its own storage")
	apart(m, b, "result has its own storage")
	rowsApart(m, "result rows have their own storage")
}

// Every r, n, c up to 3 (4 thorough), all elements any finite number, also a
// matrix times itself.
func H_C04_Small() {
	k := tiered(3, 4)
	c04check(size("r", k), size("n", k), size("c", k))
}

// Larger products, where blocked, unrolled or parallel loops have their seams.
func H_C04_Large() {
	s := pick("shape", []int{5, 9, 4}, []int{17, 2, 3}, []int{2, 33, 2}, []int{3, 4, 18}, []int{8, 8, 8}, []int{1, 65, 1}, []int{1, 1, 9})
	c04check(s[0], s[1], s[2])
}

// Every pair of shapes up to 3x3 (4x4 thorough): refusal of mismatches.
func H_C04_Shapes() {
	k := tiered(3, 4)
	a, b := mat("a", size("r", k), size("n", k)), mat("b", size("n2", k), size("c", k))
	wa, wb := clone(a), clone(b)
	m, err := a.Dot(b)
	vAssert((err == nil) == (a.Cols == b.Rows), "refuses exactly different inner dimensions")
	if err == nil {
		shape(m, a.Rows, b.Cols, "result shape")
	}
	same(a, wa, "left operand unchanged")
	same(b, wb, "right operand unchanged")
}

// One pair of factors with no number as a product (0 and an infinity, or NaN and
// anything), everything else any finite number: the element is NaN.
//v: real=no
func H_C04_Special() {
	s := pick("shape", []int{1, 1, 1}, []int{1, 2, 1}, []int{2, 3, 2}, []int{1, 9, 1}, []int{1, 5, 1})
	a, b := mat("a", s[0], s[1]), mat("b", s[1], s[2])
	v := [][]float64{{0, math.Inf(1)}, {0, math.Inf(-1)}, {0, math.NaN()}, {1, math.NaN()}}[vPick("special", 4)]
	i, j, k := vPick("row", s[0]), vPick("column", s[2]), vPick("inner", s[1])
	if vPick("swapped", 2) == 1 {
		a.M[i][k], b.M[k][j] = v[1], v[0]
	} else {
		a.M[i][k], b.M[k][j] = v[0], v[1]
	}
	m, err := a.Dot(b)
	vAssert(err == nil, "matching inner dimensions are accepted")
	if shape(m, s[0], s[2], "result shape") {
		vAssert(math.IsNaN(m.M[i][j]), "a product that is no number is not left out")
	}
}

// Long rows and columns: one of the three sizes is 40, 70 or 150, the others 1 or 2.
func H_C04_Long() {
	n := []int{40, 70, 150}[vPick("long", 3)]
	s := pick("shape", []int{n, 1, 1}, []int{1, n, 1}, []int{1, 1, n}, []int{n, 2, 1}, []int{1, 2, n}, []int{n, 1, 2}, []int{2, 1, n})
	r, c := s[0], s[2]
	a, b := mat("a", r, s[1]), mat("b", s[1], c)
	wa, wb := clone(a), clone(b)
	m, err := a.Dot(b)
	vAssert(err == nil, "matching inner dimensions are accepted")
	if !shape(m, r, c, "result shape") {
		return
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			vEq(m.M[i][j], product(i, j, wa.M, wb.M), "element of the product")
		}
	}
	scribbled(m, "result rows have their own storage")
	same(a, wa, "left operand unchanged")
	same(b, wb, "right operand unchanged")
}

// Products of matrices with a side of 40 or more up to 1100, of given numbers but
// for the first, a middle and the last, which are any.
func H_C04_Bulk() {
	r, n, c := bulkLayers()
	a, b := bulk("a", r, n), bulk("b", n, c)
	wa, wb := clone(a), clone(b)
	m, err := a.Dot(b)
	vAssert(err == nil, "matching inner dimensions are accepted")
	if !shape(m, r, c, "result shape") {
		return
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			vEq(m.M[i][j], product(i, j, wa.M, wb.M), "element of the product")
		}
	}
	scribbled(m, "result rows have their own storage")
	same(a, wa, "left operand unchanged")
	same(b, wb, "right operand unchanged")
}
