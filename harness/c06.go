package main

// Equals on every pair of shapes up to 3x3 (4x4 thorough), every element any
// float64 (NaN and both zeros included), also a matrix with itself.
func H_C06_Equals() {
	k := tiered(3, 4)
	a, b := matAny("a", size("r", k), size("c", k)), matAny("b", size("r2", k), size("c2", k))
	if vPick("self", 2) == 1 {
		b = a
	}
	wa, wb := clone(a), clone(b)
	want := a.Rows == b.Rows && a.Cols == b.Cols
	if want {
		for i := range a.M {
			for j := range a.M[i] {
				want = want && wa.M[i][j] == wb.M[i][j]
			}
		}
	}
	got := a.Equals(b)
	vAssert(got == want, "equal exactly when shape and elements are equal")
	same(a, wa, "left operand unchanged")
	same(b, wb, "right operand unchanged")
}

// Larger matrices of one shape: one element may differ.
func H_C06_Large() {
	s := pick("shape", []int{1, 9}, []int{9, 1}, []int{4, 5}, []int{5, 4}, []int{6, 6})
	a := matAny("a", s[0], s[1])
	b := clone(a)
	i, j := vPick("i", s[0]), vPick("j", s[1])
	x := vFloat("x")
	b.M[i][j] = x
	nan := false
	for k := range a.M {
		for l := range a.M[k] {
			if k != i || l != j {
				nan = nan || a.M[k][l] != a.M[k][l]
			}
		}
	}
	want := !nan && a.M[i][j] == x
	vAssert(a.Equals(b) == want, "equal exactly when the elements are equal")
	vAssert(b.Equals(a) == want, "and the other way round")
}

// Matrices of seven larger shapes up to 300x1, 1x300 and 18x18, with numbers as
// elements, that agree but for one element in the first, the last, a middle or the
// last but one place.
func H_C06_Long() {
	r, c := longShapes()
	a := mat("a", r, c)
	b := clone(a)
	n := r * c
	k := []int{0, n - 1, n / 2, n - 2}[vPick("at", 4)]
	x := vFloat("x")
	b.M[k/c][k%c] = x
	want := a.M[k/c][k%c] == x
	vAssert(a.Equals(b) == want, "equal exactly when the elements are equal")
	vAssert(b.Equals(a) == want, "and the other way round")
}

// Matrices of more than a thousand elements that agree but for any one of nine
// places, the first, last and middle ones of rows and columns.
func H_C06_Bulk() {
	r, c := bulkShapes()
	a := bulk("a", r, c)
	b := clone(a)
	i, j := []int{0, r / 2, r - 1}[vPick("row", 3)], []int{0, c / 2, c - 1}[vPick("column", 3)]
	x := vFloat("x")
	b.M[i][j] = x
	want := a.M[i][j] == x
	vAssert(a.Equals(b) == want, "equal exactly when the elements are equal")
	vAssert(b.Equals(a) == want, "and the other way round")
}
